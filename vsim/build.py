"""Builds the simulator together with /repo's current sources.  Objects are keyed by ninja in a per-variant
directory outside /repo (ignored by git); a copy without that directory simply compiles everything."""
import glob, os, subprocess, sys, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

VARIANTS = {
    # plain: fast, heap/stack perturbation by mallopt
    'plain': dict(cxx='-O1', inst=''),
    # asan: memory errors become immediate, deterministic failures
    'asan': dict(cxx='-O1 -fsanitize=address -fno-omit-frame-pointer', inst=''),
    # sched: asan + a preemption point at every basic block of the engine, player and controllers
    'sched': dict(cxx='-O1 -fsanitize=address -fno-omit-frame-pointer', inst='-fsanitize-coverage=trace-pc'),
}
class BuildError(Exception):
    pass


INST_DIRS = ('PlayerBase', 'ScenarioEngine', 'CommonMini/UDP', 'Controllers')


def sources():
    E = REPO + '/EnvironmentSimulator'
    out = []
    for d in ('Modules/CommonMini', 'Modules/RoadManager', 'Modules/Controllers', 'Modules/PlayerBase',
              'Modules/ScenarioEngine/SourceFiles', 'Modules/ScenarioEngine/OSCTypeDefs', 'Libraries/esminiLib'):
        out += sorted(glob.glob(f'{E}/{d}/*.cpp')) + sorted(glob.glob(f'{E}/{d}/*.c'))
    skip = ('OSIReporter.cpp', 'OSITrafficCommand.cpp', 'ControllerSumo.cpp', 'Plot.cpp', 'version.cpp')
    out = [s for s in out if os.path.basename(s) not in skip]
    out += [REPO + '/externals/pugixml/pugixml.cpp', REPO + '/externals/yaml/yaml.cpp']
    out += [s for s in sorted(glob.glob(E + '/Applications/replayer/*.cpp')) if os.path.basename(s) not in ('main.cpp', 'osi_receiver.cpp')]
    out += [E + '/Applications/esmini/main.cpp']
    return out


def build(variant, quiet=True):
    v = VARIANTS[variant]
    E = REPO + '/EnvironmentSimulator'
    bd = os.path.join(BUILD, variant)
    os.makedirs(bd, exist_ok=True)
    lock = open(os.path.join(bd, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    inc = [E + '/Modules/' + m for m in ('CommonMini', 'RoadManager', 'Controllers', 'PlayerBase', 'ViewerBase',
                                         'ScenarioEngine/SourceFiles', 'ScenarioEngine/OSCTypeDefs')]
    inc += [E + '/Libraries/esminiLib', E + '/Applications/replayer', REPO + '/externals/pugixml',
            REPO + '/externals/yaml', REPO + '/externals/expr', REPO + '/externals/fmt/include', VERIF + '/sim']
    incs = ' '.join('-I' + i for i in inc)
    ver = os.path.join(bd, 'version_stub.cpp')
    write_if_changed(ver, version_stub())
    base = f'-g1 -w -pthread -DFMT_SHARED {incs}'
    lines = [f'rule cxx\n command = g++ -std=gnu++17 $fl {base} -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n',
             f'rule cc\n command = gcc $fl {base} -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n',
             f'rule cxxmain\n command = g++ -std=gnu++17 $fl {base} -MMD -MF $out.d -c $in -o $out && objcopy --redefine-sym main=$sym $out\n depfile = $out.d\n deps = gcc\n',
             f'rule link\n command = g++ {v["cxx"]} -pthread -rdynamic -o $out $in -lfmt -ldl\n']
    objs = []
    for s in sources() + [VERIF + '/sim/exec.cpp', VERIF + '/sim/interpose.cpp', ver]:
        o = os.path.relpath(s, REPO).replace('/', '_').replace('..', '') + '.o'
        objs.append(o)
        fl = v['cxx']
        if v['inst'] and s.startswith(REPO) and any(d in s for d in INST_DIRS):
            fl += ' ' + v['inst']
        rule = 'cc' if s.endswith('.c') else 'cxx'
        ren = {'/Applications/esmini/main.cpp': 'esmini_main', '/dat2csv.cpp': 'dat2csv_main'}
        for k, sym in ren.items():
            if s.endswith(k):
                rule = 'cxxmain'
                fl += f'\n sym = {sym}'
        lines.append(f'build {o}: {rule} {s}\n fl = {fl}\n')
    lines.append('build simh: link ' + ' '.join(objs) + '\n')
    write_if_changed(os.path.join(bd, 'build.ninja'), '\n'.join(lines))
    t0 = time.time()
    env = {k: v2 for k, v2 in os.environ.items() if k not in ('CCACHE_DIR',)}
    r = subprocess.run(['ninja', '-C', bd, 'simh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode != 0:
        txt = r.stdout.decode(errors='replace')
        sys.stderr.write('\n'.join(l for l in txt.split('\n') if 'error' in l or 'undefined' in l or 'FAILED' in l)[:6000] + '\n')
        raise BuildError('the tree does not build')
    fcntl.flock(lock, fcntl.LOCK_UN)
    return os.path.join(bd, 'simh'), time.time() - t0


def version_stub():
    # version.cpp is generated by the repository's build; the simulator uses fixed values
    return '''extern const char* ESMINI_GIT_REV; extern const char* ESMINI_GIT_TAG; extern const char* ESMINI_GIT_BRANCH; extern const char* ESMINI_BUILD_VERSION;
const char* ESMINI_GIT_TAG = "sim"; const char* ESMINI_GIT_REV = "sim"; const char* ESMINI_GIT_BRANCH = "sim"; const char* ESMINI_BUILD_VERSION = "sim";
'''


def write_if_changed(p, s):
    try:
        if open(p).read() == s:
            return
    except OSError:
        pass
    with open(p, 'w') as f:
        f.write(s)


if __name__ == '__main__':
    for v in sys.argv[1:] or VARIANTS:
        print(v, build(v))
