"""Compiling /repo's current tree for the analyses."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time
import shutil
import atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CML_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
LLVM = '/usr/lib/llvm-18'

OPT = ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-math-errno',
       '-fno-stack-protector', '-gline-tables-only', '-mllvm', '-inline-threshold=100000',
       '-mllvm', '-inlinehint-threshold=100000', '-mllvm', '-unroll-full-max-count=64',
       '-mllvm', '-unroll-threshold=20000', '-mllvm', '-unroll-max-iteration-count-to-analyze=64']

# no LLVM pass runs: storage lifetimes and every access stay as the source has them
RAW = ['-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-math-errno',
       '-fno-stack-protector', '-gline-tables-only']
OPTSET = [OPT if os.environ.get('CML_OPT') else RAW]

_tmp = None

def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='cmlv.')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp

class BuildError(Exception):
    pass

def irdump():
    """path of the IR reader, built on demand"""
    out = os.path.join(VERIF, 'build', 'irdump')
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    flags = subprocess.check_output(['llvm-config-18', '--cppflags'], text=True).split()
    t = out + '.%d' % os.getpid()
    subprocess.check_call([CLANG, '-O1', '-std=c++17', '-fno-rtti'] + flags + [src, '-o', t,
                          '-L' + LLVM + '/lib', '-lLLVM-18'])
    os.replace(t, out)
    return out

def pch(extra=(), opt=None):
    """precompiled h.h for the current tree (per process tree, in the scratch directory)"""
    opt = OPTSET[0] if opt is None else opt
    h = hashlib.sha1(repr((list(extra), list(opt))).encode()).hexdigest()[:10]
    out = os.path.join(tmpdir(), 'h.%s.pch' % h)
    if os.path.exists(out):
        return out
    cmd = [CLANG, '-std=c++17', '-I', REPO, '-I', os.path.join(VERIF, 'harness')] + list(opt) + list(extra) + \
          ['-x', 'c++-header', os.path.join(VERIF, 'harness', 'h.h'), '-o', out + '.t']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr)
    os.replace(out + '.t', out)
    return out

def compile_ir(src, extra=(), opt=None, tag=None, usepch=None):
    """compile a harness against /repo to bitcode; returns path"""
    opt = OPTSET[0] if opt is None else opt
    h = hashlib.sha1((src + repr(list(extra)) + repr(tag)).encode()).hexdigest()[:10]
    out = os.path.join(tmpdir(), os.path.basename(src) + '.' + h + '.bc')
    cmd = [CLANG, '-std=c++17', '-I', REPO, '-I', os.path.join(VERIF, 'harness')] + list(opt) + list(extra) + \
          (['-include-pch', usepch] if usepch else []) + ['-emit-llvm', '-c', src, '-o', out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr)
    return out

def dump(bc, prefixes):
    p = subprocess.run([irdump(), bc] + list(prefixes), capture_output=True, text=True)
    if p.returncode:
        raise BuildError('irdump: ' + p.stderr)
    return json.loads(p.stdout)
