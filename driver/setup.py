#!/usr/bin/env python3
"""Builds the executor, the IR of the harnesses with the code under test, and the native replayer."""
import check
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(5) as ex:
    for f in [ex.submit(check.build_symx), ex.submit(check.build_ir, "std"), ex.submit(check.build_replay, "std"), ex.submit(check.build_ir, "nocompress"), ex.submit(check.build_replay, "nocompress")]:
        print(f.result())
