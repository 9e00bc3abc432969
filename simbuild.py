#!/usr/bin/env python3
"""Builds the simulation harnesses from /repo's current working tree into /verif/build (git-ignored)."""
import os, sys, subprocess, glob, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
B = os.environ.get('SIM_BUILD', os.path.join(HERE, 'build'))
# harness -> (scenario source, extra defines, repo sources needed)
TARGETS = {
    'queue2': ('queue', ['-DSALTICIDAE_SIM_MPMCQ_SIZE=2'], ['event', 'util', 'type']),
    'queue5': ('queue', ['-DSALTICIDAE_SIM_MPMCQ_SIZE=5'], ['event', 'util', 'type']),
    'tcall': ('tcall', ['-DSALTICIDAE_SIM_MPMCQ_SIZE=3'], ['event', 'util', 'type']),
    'ref': ('ref', [], []),
    'msg': ('msg', ['-DSALTICIDAE_SIM_MPMCQ_SIZE=4'], None),
    'hostile': ('hostile', ['-DSALTICIDAE_SIM_MPMCQ_SIZE=4'], None),
    'client': ('client', ['-DSALTICIDAE_SIM_MPMCQ_SIZE=4'], None),
    'capi': ('capi', ['-DSALTICIDAE_SIM_MPMCQ_SIZE=4'], None),
    'wire': ('wire', ['-DSALTICIDAE_SIM_MPMCQ_SIZE=4'], None),
    'flood': ('flood', ['-DSALTICIDAE_SIM_MPMCQ_SIZE=4'], None),
    'peer': ('peer', ['-DSALTICIDAE_SIM_MPMCQ_SIZE=4'], None),
}
STD = ['-std=c++14', '-include', 'cstdint']
OPT = ['-O1', '-g1', '-fno-omit-frame-pointer', '-w']
INST = ['-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0']
SIMSRC = ['core', 'heap', 'kernel', 'main']

def inc():
    return ['-I%s/inc' % B, '-I%s/inc/salticidae' % B, '-I%s/include' % REPO, '-I%s' % HERE]

def config_h():
    d = os.path.join(B, 'inc', 'salticidae'); os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, 'src', 'config.h.in')).read()
    on = {'SALTICIDAE_NORMAL_LOG', 'SALTICIDAE_MSG_STAT', 'SALTICIDAE_CBINDINGS'}
    out = []
    for l in src.splitlines():
        if l.startswith('#cmakedefine'):
            n = l.split()[1]
            l = '#define ' + n if n in on else '/* #undef %s */' % n
        out.append(l)
    p = os.path.join(d, 'config.h'); t = '\n'.join(out) + '\n'
    if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def build(names):
    config_h()
    hdrs = sorted(glob.glob(REPO + '/include/**/*.h', recursive=True)) + sorted(glob.glob(REPO + '/src/*.h'))
    simh = sorted(glob.glob(HERE + '/sim/*.h')); scenh = sorted(glob.glob(HERE + '/scen/*.h'))
    jobs = {}; exes = []
    os.makedirs(B + '/obj', exist_ok=True)
    def job(src, flags, deps):
        key = digest([src] + deps, ' '.join(flags) + B)
        o = '%s/obj/%s-%s.o' % (B, os.path.basename(src)[:-4], key)
        jobs[o] = ['g++'] + flags + ['-c', src, '-o', o + '.tmp']
        return o
    for n in names:
        scen, defs, mods = TARGETS[n]
        objs = []
        srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
        fl = STD + OPT + INST + defs + ['-DCERT_DIR="%s/certs"' % HERE] + inc()
        # the scenario only gets its own headers among those in scen/
        objs.append(job(HERE + '/scen/%s.cpp' % scen, fl, hdrs + simh + scenh + [B + '/inc/salticidae/config.h']))
        for s in srcs:
            if mods is not None and os.path.basename(s)[:-4] not in mods: continue
            objs.append(job(s, fl, hdrs + [B + '/inc/salticidae/config.h']))
        for s in SIMSRC:
            objs.append(job(HERE + '/sim/%s.cpp' % s, ['-std=c++17', '-O2', '-g1', '-fno-omit-frame-pointer', '-w'], simh))
        key = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:20]
        exes.append((n, '%s/%s-%s' % (B, n, key), objs))
    todo = [(o, c) for o, c in jobs.items() if not os.path.exists(o)]
    def comp(oc):
        o, c = oc
        run(c); os.rename(o + '.tmp', o)
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(comp, todo))
    out = {}
    def link(e):
        n, p, objs = e
        if not os.path.exists(p):
            for old in glob.glob('%s/%s-*' % (B, n)):
                if len(os.path.basename(old)) == len(n) + 21:
                    try: os.unlink(old)
                    except OSError: pass
            run(['g++', '-rdynamic', '-no-pie', '-o', p + '.t'] + objs + ['-luv', '-lssl', '-lcrypto', '-lpthread', '-ldl'])
            os.rename(p + '.t', p)
        return n, p
    with cf.ThreadPoolExecutor(8) as ex:
        for n, p in ex.map(link, exes): out[n] = p
    return out

if __name__ == '__main__':
    for n, p in build(sys.argv[1:] or [t for t in TARGETS if os.path.exists(HERE + '/scen/%s.cpp' % TARGETS[t][0])]).items(): print(n, p)
