"""Compile /repo's current sources (and a spec unit) to one analysable LLVM module."""
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def sources():
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    txt = '\n'.join(re.sub(r'#.*$', '', l) for l in txt.splitlines())
    m = re.search(r'set\(SRCS([^)]*)\)', txt)
    if not m:
        raise BuildError('no set(SRCS ...) in CMakeLists.txt')
    srcs = [os.path.join(REPO, s) for s in m.group(1).split()]
    return [s for s in srcs if os.path.exists(s)], txt


BASE = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-UNDEBUG', '-ffp-contract=off', '-fno-math-errno',
        '-fno-builtin', '-DLIBSWIFTNAV_ENABLE_STDERR_LOGGING', '-w', '-fno-discard-value-names']


def mark_unassigned(d, bc):
    """give every scalar local an explicit unknown first value: without it, the value a variable has on one way into a join would be
    taken for its value on the other, where it was never assigned"""
    ir = os.path.join(d, 'all.ll')
    _run(['llvm-dis', bc, '-o', ir])
    out, used, skip = [], set(), False
    for l in open(ir):
        if l.startswith('define '):
            params = set(re.findall(r'%([\w.]+)', l))
        out.append(l)
        m = re.match(r'  %([\w.]+) = alloca (i8|i16|i32|i64|float|double), align', l)
        if m and not (m.group(1).endswith('.addr') and m.group(1)[:-5] in params) and m.group(1) != 'retval':
            v, t = m.groups()
            used.add(t)
            out.append('  %%.un.%s = call %s @__unassigned_%s()\n  store %s %%.un.%s, ptr %%%s\n' % (v, t, t, t, v, v))
    for t in sorted(used):
        out.append('declare %s @__unassigned_%s()\n' % (t, t))
    open(ir, 'w').writelines(out)
    return ir


def build(spec_files=(), only=None, extra_c=(), defines=(), mark=False):
    """-> path of the bitcode module (in a fresh temp dir) and list of units."""
    d = tempfile.mkdtemp(prefix='swnav_sa_')
    srcs, txt = sources()
    m = re.search(r'set\(MAX_CHANNELS "([0-9]+)"', txt)
    if not m:
        raise BuildError('no set(MAX_CHANNELS ...)')
    tmpl = open(os.path.join(REPO, 'src', 'max_channels.h.in')).read()
    open(os.path.join(d, 'max_channels.h'), 'w').write(tmpl.replace('${MAX_CHANNELS}', m.group(1)))
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + d, '-I' + os.path.join(VERIF, 'spec'), '-I' + os.path.join(REPO, 'src')]
    if only is not None:
        srcs = [s for s in srcs if os.path.basename(s) in only]
    jobs = []
    for s in list(srcs) + list(spec_files) + list(extra_c):
        o = os.path.join(d, '%03d_%s.bc' % (len(jobs), os.path.basename(s)))
        if s.endswith('.cc') or s.endswith('.cpp'):
            cmd = ['clang++', '-std=gnu++14', '-fno-exceptions', '-fno-rtti']
        else:
            cmd = ['clang', '-std=gnu99']
        jobs.append((cmd + BASE + list(defines) + inc + ['-emit-llvm', '-c', s, '-o', o], o))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: _run(j[0]), jobs))
    allbc = os.path.join(d, 'all.bc')
    _run(['llvm-link', '-o', allbc] + [j[1] for j in jobs])
    out = os.path.join(d, 'm.bc')
    if mark:
        allbc = mark_unassigned(d, allbc)
    _run(['opt', '-passes=function(sroa,loop-simplify,lcssa)', allbc, '-o', out])
    return out, [os.path.relpath(s, REPO) if s.startswith(REPO) else os.path.basename(s) for s in srcs]
