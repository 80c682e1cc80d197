#!/usr/bin/env python3
"""Authoring aid: seeds(...) in a definitions file -> /verif/seeded/<id>/{patch.diff,demo.c,demo.sh,meta.json}."""
import os, subprocess, json, sys, tempfile, shutil
SH = '''#!/bin/bash
# run with the working directory at the top of a built tree; 0 = behaves, 1 = broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/ztdemo.XXXXXX); trap 'rm -rf "$t"' EXIT
r=$PWD
gcc %s -w -I"$r/src" -I"$r/_build/src" -I"$r/_build/src/libzt" -I"$r/compat" %s -o "$t/demo" "$d/demo.c" %s "$r/_build/src/libzt/libzt_unit.a" "$r/_build/src/libzt/libzt_gc.a" "$r/_build/src/libzt/libzt.a" -lpthread -lm || exit 3
cd "$t" || exit 3
timeout %d ./demo
'''
DEFS = '-DHAVE_CONFIG_H -DHAVE_PTHREADS -DWITH_THREADS -D_GNU_SOURCE -DHAVE_STDBOOL_H -DHAVE_STDINT_H -DHAVE_INTTYPES_H -DHAVE_STRING_H -DHAVE_STDLIB_H -DHAVE_SYS_TYPES_H -DHAVE_UNISTD_H'
def seed(id, prop, file, edits, demo, needs, breaks, flags='-g -O1', extra='', timeout=100, defs=''):
    """edits: list of (old,new) or (file,old,new)"""
    w = '/tmp/seedgen'
    if not os.path.isdir(w): subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    subprocess.check_call(['git', '-C', w, 'fetch', '-q']); subprocess.check_call(['git', '-C', w, 'reset', '-q', '--hard', 'origin/HEAD'])
    for e in edits:
        f, o, n = e if len(e) == 3 else (file,) + e
        p = w + '/src/libzt/' + f; s = open(p, encoding='latin-1').read()
        assert s.count(o) == 1, '%s: %d matches of %r' % (id, s.count(o), o)
        open(p, 'w', encoding='latin-1').write(s.replace(o, n))
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', w, 'diff']))
    open(d + '/demo.c', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(SH % (flags, DEFS + ' ' + defs, extra, timeout))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    # every changed line must be an original one
    for l in subprocess.check_output(['git', '-C', w, 'diff', '-U0'], text=True, errors='replace').split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip():
            orig = ''.join(subprocess.check_output(['git', '-C', w, 'show', 'b144f6e:src/libzt/' + e[0]], text=True, errors='replace') for e in [x if len(x) == 3 else (file,) + x for x in edits])
            if l[1:] not in orig: print(id, 'NOTE: not an original line:', l)
    print('made', id)
