#!/bin/sh
# Builds the harness (leptos, the patched tachys, the kit) for both compilers.
cd "$(dirname "$0")" && exec python3 -c '
import mv
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(2) as ex:
    for k in ex.map(lambda s: mv.build_kit(s, clean=False), [False, True]):
        print("built", k["arts"]["kit"])
'
