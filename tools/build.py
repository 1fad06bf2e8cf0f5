#!/usr/bin/env python3
"""Builds the simulator from /repo's current tree into /verif/build (content addressed object cache).
usage: build.py [--repo DIR] [--out FILE]     prints the path of the simulator binary"""
import concurrent.futures, hashlib, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SIM = os.path.join(VERIF, 'sim')
REPO_SRC = [
    'controller_interface/src/*.cpp', 'controller_manager/src/*.cpp',
    'hardware_interface/src/*.cpp', 'hardware_interface/src/mock_components/generic_system.cpp', 'joint_limits/src/*.cpp',
]
HDR_DIRS = ['controller_manager/include', 'controller_interface/include', 'hardware_interface/include', 'joint_limits/include', 'transmission_interface/include']
RT = ['sim/rt/rt.cpp', 'sim/rt/tsan_rt.cpp', 'sim/rt/alloc.cpp']


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, sub, files in sorted(os.walk(d)):
            sub.sort()
            for f in sorted(files):
                if f.endswith(('.hpp', '.h', '.inc')):
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode())
                    h.update(open(p, 'rb').read())
    return h.hexdigest()


def sources(repo):
    import glob
    r = []
    for g in REPO_SRC:
        r += sorted(glob.glob(os.path.join(repo, g)))
    return r


def build(repo='/repo', build_dir=None, log=sys.stderr):
    bd = build_dir or os.path.join(VERIF, 'build')
    os.makedirs(bd + '/obj', exist_ok=True)
    gen = os.path.join(bd, 'gen-' + sha(open(SIM + '/gen/gen.py', 'rb').read(), *[open(os.path.join(r, f), 'rb').read()
          for r, _, fs in sorted(os.walk(repo + '/controller_manager_msgs')) for f in sorted(fs) if f.endswith(('.msg', '.srv'))],
          *[open(os.path.join(repo, 'controller_manager/src', f), 'rb').read() for f in sorted(os.listdir(repo + '/controller_manager/src')) if f.endswith('.yaml')])[:16])
    if not os.path.exists(gen + '/.done'):
        subprocess.run([sys.executable, SIM + '/gen/gen.py', repo, gen], check=True, stdout=subprocess.DEVNULL)
        open(gen + '/.done', 'w').close()
    inc = [SIM + '/stubs', gen] + [os.path.join(repo, d) for d in HDR_DIRS] + ['/usr/include/urdfdom', '/usr/include/urdfdom_headers', SIM + '/rt', SIM + '/harness']
    incf = ['-I' + i for i in inc]
    hdr_all = tree_hash([SIM + '/stubs', gen] + [os.path.join(repo, d) for d in HDR_DIRS] + [SIM + '/rt'])
    hdr_rt = tree_hash([SIM + '/rt'])
    hdr_h = sha(hdr_all, tree_hash([SIM + '/harness']))
    jobs = []  # (source, flags, header hash)
    for s in sources(repo):
        f = ['-std=c++20', '-O1', '-g', '-w', '-fsanitize=thread', '-fno-omit-frame-pointer'] + incf
        if s.endswith('ros2_control_node.cpp'):
            f.append('-Dmain=ros2_control_node_main')
        jobs.append((s, f, hdr_all))
    for s in RT:
        jobs.append((os.path.join(VERIF, s), ['-std=c++20', '-O2', '-g', '-Wall', '-fno-omit-frame-pointer', '-I' + SIM + '/rt'], hdr_rt))
    jobs.append((SIM + '/stubs/simros/simros.cpp', ['-std=c++20', '-O1', '-g', '-w'] + incf, hdr_all))
    for f in sorted(os.listdir(SIM + '/harness')):
        if f.endswith('.cpp'):
            fl = ['-w', '-fsanitize=thread', '-fno-omit-frame-pointer'] if f.startswith('instr_') else ['-Wall', '-Wno-deprecated-declarations']
            jobs.append((SIM + '/harness/' + f, ['-std=c++20', '-O1', '-g'] + fl + incf, hdr_h))
    big = {'controller_manager.cpp': 0, 'resource_manager.cpp': 1, 'component_parser.cpp': 2, 'runner.cpp': 1, 'requests.cpp': 2}
    jobs.sort(key=lambda j: big.get(os.path.basename(j[0]), 9))

    def one(j):
        s, flags, hh = j
        key = sha(open(s, 'rb').read(), hh, ' '.join(flags), os.path.basename(s))[:32]
        o = f'{bd}/obj/{key}.o'
        if not os.path.exists(o):
            tmp = f'{o}.{os.getpid()}.tmp'
            r = subprocess.run(['g++', '-c', *flags, s, '-o', tmp], capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(f'compiling {s} failed\n{r.stderr[-6000:]}')
            if r.stderr and '/harness/' in s:
                print(r.stderr, file=log)
            os.rename(tmp, o)
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    # instrumented objects first: their copies of inline functions are the ones linked
    objs = [o for _, o in sorted(zip(jobs, objs), key=lambda x: '-fsanitize=thread' not in x[0][1])]
    out = f'{bd}/sim-{sha(*objs)[:24]}'
    if not os.path.exists(out):
        m = '_ZN18controller_manager17ControllerManager'
        wrap = [f'-Wl,--wrap={m}{x}ERKN6rclcpp4TimeERKNS1_8DurationE' for x in ('4read', '6update', '5write')]
        tmp = f'{out}.{os.getpid()}.tmp'
        r = subprocess.run(['g++', '-o', tmp, '-rdynamic', *wrap, *objs, '-lfmt', '-ltinyxml2', '-lurdfdom_model', '-lyaml-cpp', '-ldl', '-lpthread'], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('linking failed\n' + r.stderr[-6000:])
        os.rename(tmp, out)
    return out


if __name__ == '__main__':
    repo = '/repo'
    a = sys.argv[1:]
    if '--repo' in a:
        repo = a[a.index('--repo') + 1]
    t = time.time()
    try:
        p = build(repo)
    except (RuntimeError, subprocess.CalledProcessError) as e:
        print(e, file=sys.stderr)
        sys.exit(2)
    print(p)
    print(f'{time.time() - t:.1f} s', file=sys.stderr)
