#!/usr/bin/env python3
"""setup_cmd: build the LLVM pass and the runtime (checks rebuild them when missing)."""
import run
run.compile_tool("pass"); run.compile_tool("rt")
print("ok")
