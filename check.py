#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
import c_memory, c_default, c_typed, c_bytes, c_timer, c_holder, c_types, c_values, c_func, c_member, c_call, c_words, c_div, c_sort, c_casts, c_padding, c_iterate, c_abort, c_arrays, c_headers

CHECKS = {}
for m in (c_memory, c_default, c_typed, c_bytes, c_timer, c_holder, c_types, c_values, c_func, c_member, c_call, c_words, c_div, c_sort, c_casts, c_padding, c_iterate, c_abort, c_arrays, c_headers):
    CHECKS.update(m.CHECKS)

if __name__ == "__main__":
    vf.main(CHECKS)
