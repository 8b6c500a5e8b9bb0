"""Variants of la that the workers of a check run.

c         the extension built from la/src/cflabel.pyx (as build.sh does)
pure      no extension, the fallbacks in la/flabel.py
asan-pyx  as c, built with AddressSanitizer and UndefinedBehaviorSanitizer
asan-c    the shipped la/src/cflabel.c built like that
"""
import os
import signal
import subprocess
import sys

import bootstrap

HERE = os.path.dirname(os.path.abspath(__file__))

SAN = ['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer']


def variant(check, w):
    if check == 'C05':
        return ('c', 'pure', 'asan-pyx', 'asan-c')[w % 4]
    return 'pure' if w % 4 == 3 else 'c'


def extension(variant, scratch):
    "Path of the extension that la is to use."
    if variant == 'pure':
        return None
    name = {'c': 'cflabel'}.get(variant, variant)
    return os.path.join(scratch, name, 'cflabel.so')


def prepare(check, scratch):
    if check == 'C05':
        bootstrap.build_ext(scratch, source='c', name='c')
        for source in ('pyx', 'c'):
            bootstrap.build_ext(scratch, source=source, cflags=SAN,
                                ldflags=SAN, name='asan-' + source)
        control(scratch)
    if check == 'C26':
        subprocess.check_call(
            ['gcc', '-O1', '-w', '-shared', '-fPIC', '-o',
             os.path.join(scratch, 'faultshim.so'),
             os.path.join(HERE, 'faultshim.c'), '-ldl'])


CONTROL = '''
#include <stdlib.h>
int over(int n) { int *p = malloc(n * sizeof(int)); int r = p[n]; free(p);
                  return r; }
int shift(int n) { return 1 << (n + 40); }
'''


def control(scratch):
    "The sanitizers see a planted heap overflow and undefined behaviour."
    d = os.path.join(scratch, 'control')
    os.makedirs(d)
    with open(os.path.join(d, 'control.c'), 'w') as f:
        f.write(CONTROL)
    so = os.path.join(d, 'control.so')
    subprocess.check_call(['gcc', '-w', '-shared', '-fPIC', '-O0', '-o', so,
                           os.path.join(d, 'control.c')] + SAN)
    for fn, text in (('over', 'heap-buffer-overflow'),
                     ('shift', 'shift exponent')):
        p = subprocess.Popen(
            [sys.executable, '-c', 'import ctypes, sys; '
             'ctypes.CDLL(%r).%s(3)' % (so, fn)],
            stderr=subprocess.PIPE, env=environ(os.environ, 'asan-control'))
        err = p.communicate()[1]
        if p.returncode != -signal.SIGABRT or text not in err:
            raise RuntimeError('the sanitizers do not work: %s %s' %
                               (p.returncode, err[-2000:]))


def runtime(name):
    return subprocess.check_output(
        ['gcc', '-print-file-name=' + name]).strip()


def environ(env, variant, check=None, scratch=None):
    if check == 'C26':
        env = dict(env, LD_PRELOAD=os.path.join(scratch, 'faultshim.so'))
    if variant.startswith('asan'):
        env = dict(
            env, LD_PRELOAD=' '.join([runtime('libasan.so'),
                                      runtime('libubsan.so')]),
            ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:'
            'allocator_may_return_null=1:handle_segv=1',
            UBSAN_OPTIONS='halt_on_error=1:abort_on_error=1:'
            'print_stacktrace=1')
    return env
