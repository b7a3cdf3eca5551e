#!/usr/bin/env python3
"""Mutation trials: how many small changes of the library do the checks and the tests notice?

  mutate.py OUT.jsonl COUNT SEED [--files REGEX] [--workers N] [--scale X]

Works in /tmp/mt; every mutant is built with all the checks but C23 in one program, the checks run until one of them
fails; the repository's tests run on the mutants no check notices.
"""
import argparse, glob, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('out'); ap.add_argument('count', type=int); ap.add_argument('seed', type=int)
ap.add_argument('--files', default='.'); ap.add_argument('--workers', type=int, default=2); ap.add_argument('--scale', default='0.25')
ap.add_argument('--cores', type=int, default=4)
ap.add_argument('--all', action='store_true', help='run all the checks, not only until one fails')
ap.add_argument('--headers', action='store_true')
A = ap.parse_args()
MT = '/tmp/mt'
os.makedirs(MT, exist_ok=True)
SAN = '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -fno-sanitize=enum,function,vptr'
CHECKS = ['C%02d' % i for i in range(1, 26) if i != 23]


def flags(repo):
    return '-std=c++17 -O1 -g1 -w -pthread -DCRG_BUILD_STATIC -I%s/include -I%s/src -DCRG_VERSION_MAJOR=1 -DCRG_VERSION_MINOR=3 -DCRG_VERSION_BUILD=0 %s' % (repo, HERE, SAN)


def ninja(i, targets=('all.exe',)):
    d = '%s/%d' % (MT, i)
    r = subprocess.run(['ninja', '-C', d, '-j%d' % A.cores] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def setup(i):
    d = '%s/%d' % (MT, i)
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + '/repo'):
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
    subprocess.run(['git', '-C', d + '/repo', 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', d + '/repo', 'pull', '-q'], check=True)
    repo = d + '/repo'
    L = ['cflags = ' + flags(repo), 'rule cc', '  command = clang++ $cflags -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
         'rule link', '  command = clang++ $in %s -pthread -o $out' % SAN]
    objs = []
    for f in sorted(glob.glob(repo + '/source/RenderGraph/**/*.cpp', recursive=True)) + [HERE + '/src/%s.cpp' % f for f in ('pbt', 'sim', 'gg', 'ref') if os.path.exists(HERE + '/src/%s.cpp' % f)] + [HERE + '/src/checks/%s.cpp' % c for c in CHECKS]:
        o = 'o/' + re.sub('[^A-Za-z0-9]', '_', f.replace(repo, '')) + '.o'
        L.append('build %s: cc %s' % (o, f)); objs.append(o)
    L.append('build all.exe: link ' + ' '.join(objs))
    open(d + '/build.ninja', 'w').write('\n'.join(L) + '\n')
    ok, out = ninja(i)
    if not ok: print(out[-3000:]); sys.exit(2)
    # the tests
    os.makedirs(d + '/recipe', exist_ok=True)
    open(d + '/recipe/CMakeLists.txt', 'w').write(open('/opt/vp/recipe/CMakeLists.txt').read().replace('/repo', repo))
    tests(i)


def tests(i):
    """names of the failing test programs"""
    d = '%s/%d' % (MT, i)
    if not os.path.exists(d + '/t/build.ninja'):
        subprocess.run('cmake -S %s/recipe -B %s/t -G Ninja -DCMAKE_BUILD_TYPE=Debug' % (d, d), shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run('ninja -C %s/t -j%d' % (d, A.cores), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return ['build']
    bad = []
    for t in sorted(glob.glob(d + '/t/Test*')):
        if not os.access(t, os.X_OK) or os.path.isdir(t): continue
        try: rc = subprocess.run([t], cwd=d + '/t', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=100).returncode
        except subprocess.TimeoutExpired: rc = 99
        if rc: bad.append(os.path.basename(t))
    return bad


SWAPS = [('==', '!='), ('!=', '=='), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), ('&&', '||'), ('||', '&&'),
         (' + ', ' - '), (' - ', ' + '), (' * ', ' + '), (' / ', ' * '), ('0u', '1u'), ('1u', '0u'), ('1u', '2u'), ('true', 'false'), ('false', 'true'),
         ('|=', '='), ('+=', '='), ('-=', '+='), ('TRANSFER_SRC', 'TRANSFER_DST'), ('TRANSFER_DST', 'TRANSFER_SRC'), ('_READ_BIT', '_WRITE_BIT'), ('_WRITE_BIT', '_READ_BIT'),
         ('baseMipLevel', 'baseArrayLayer'), ('baseArrayLayer', 'baseMipLevel'), ('levelCount', 'layerCount'), ('layerCount', 'levelCount'), ('.width', '.height'), ('.height', '.width'),
         ('src', 'dst'), ('dst', 'src'), ('.first', '.second'), ('.second', '.first'), ('std::min', 'std::max'), ('std::max', 'std::min'), ('index', '0u'), ('passIndex', '0u'), ('( !', '( '),
         ('DEPTH_BIT', 'STENCIL_BIT'), ('STENCIL_BIT', 'DEPTH_BIT'), ('getDepth', 'getStencil'), ('Input', 'Output'), ('Output', 'Input'), ('lhs.', 'rhs.'), ('rhs.', 'lhs.'), ('front()', 'back()'),
         ('back()', 'front()'), ('continue;', ''), ('break;', ''), ('offset', '0u'), ('attach.view( index )', 'attach.view()'), ('++', '--'), ('insert_or_assign', 'try_emplace'), ('try_emplace', 'insert_or_assign'),
         (' | ', ' & '), (' & ', ' | '), ('std::next', ''), ('any_of', 'all_of'), ('all_of', 'any_of'), ('Colour', 'Depth'), ('.source', '.target'), ('begin()', 'end()'), ('VK_IMAGE_LAYOUT_UNDEFINED', 'VK_IMAGE_LAYOUT_GENERAL'),
         ('input', 'output'), ('output', 'input'), ('previous', 'next'), ('next', 'previous'), ('getPrev', 'getNext'), ('getNext', 'getCurr'), ('.access', '.pipelineStage')]
SKIP = re.compile(r'^\s*(//|\*|/\*|#|assert|case |default:|template|using |namespace|static_assert)|Logger::|log(Debug|Error|Warning|Info)|std::cerr|CRG_Exception|^\s*[{}]+;?\s*$|checkVkResult|colour')


def mutants(repo):
    r = []
    files = sorted(glob.glob(repo + '/source/RenderGraph/**/*.cpp', recursive=True))
    if A.headers: files = sorted(glob.glob(repo + '/include/RenderGraph/**/*.hpp', recursive=True) + glob.glob(repo + '/include/RenderGraph/**/*.inl', recursive=True) + glob.glob(repo + '/source/RenderGraph/**/*.hpp', recursive=True))
    for f in files:
        rel = os.path.relpath(f, repo)
        if not re.search(A.files, rel): continue
        lines = open(f).read().split('\n')
        depth = 0
        for n, l in enumerate(lines):
            if SKIP.search(l): continue
            code = l.split('//')[0]
            for a, b in SWAPS:
                for m in re.finditer(re.escape(a), code):
                    if a.isidentifier() and len(a) > 2:
                        # whole words, unless part of an enumerator or a camel case name on purpose
                        if a in ('true', 'false', 'index', 'passIndex', 'offset', 'src', 'dst', 'input', 'output', 'previous', 'next'):
                            if re.match(r'\w', code[m.end():m.end() + 1] or ' ') and a not in ('src', 'dst', 'input', 'output', 'previous', 'next'): continue
                            if m.start() and re.match(r'\w', code[m.start() - 1]): continue
                    if a in ('==',) and code[m.start() - 1:m.start()] in '!<>': continue
                    if a in ('0u', '1u') and m.start() and re.match(r'[\w.]', code[m.start() - 1]): continue
                    r.append((rel, n, 1, l[:m.start()] + b + l[m.end():]))
            # delete a statement
            if re.match(r'^\t+[A-Za-z_*+]', l) and not re.match(r'^\t+(return|if|for|while|else|auto|const|static|struct|class|enum|switch|public|private|try|catch|do)\b', l):
                k = n
                while k < len(lines) and k < n + 12 and not lines[k].rstrip().endswith(';') and '{' not in lines[k]: k += 1
                if k < len(lines) and lines[k].rstrip().endswith(';') and re.search(r'[(=]|\+\+', '\n'.join(lines[n:k + 1])):
                    prev = lines[n - 1].rstrip()
                    if prev.endswith(('{', ';', '}')) or prev == '': r.append((rel, n, k - n + 1, ''))
            if re.match(r'^\t+if \(', l) and l.rstrip().endswith(')'):
                r.append((rel, n, 1, re.sub(r'if \((.*)\)$', r'if ( !(\1) )', l.rstrip())))
                r.append((rel, n, 1, re.sub(r'if \((.*)\)$', r'if ( true || (\1) )', l.rstrip())))
    return r


FIRST = [('DotExport', ['C18']), ('Builder', ['C02', 'C01']), ('FramePass.cpp', ['C21', 'C01']), ('Attachment', ['C21', 'C03']), ('Timer', ['C15']), ('ResourceHandler', ['C11', 'C09', 'C10']), ('PipelineHolder', ['C12', 'C20']),
         ('Render', ['C06', 'C20']), ('Compute', ['C20']), ('Copy', ['C13']), ('Blit', ['C13']), ('Mipmaps', ['C13']), ('RecordContext', ['C03', 'C05']), ('Signal', ['C17']), ('LayoutStates', ['C07'])]
lock = threading.Lock()
free = list(range(A.workers))


def one(m):
    rel, n, cnt, new = m
    with lock: i = free.pop()
    try:
        d = '%s/%d' % (MT, i); f = d + '/repo/' + rel
        orig = open(f).read()
        lines = orig.split('\n')
        old = '\n'.join(lines[n:n + cnt])
        lines[n:n + cnt] = [new]
        res = {'file': rel, 'line': n + 1, 'old': old.strip(), 'new': new.strip()}
        try:
            open(f, 'w').write('\n'.join(lines))
            ok, out = ninja(i)
            if not ok: return
            order = [c for k, l in FIRST if k in rel for c in l]
            order += [c for c in CHECKS if c not in order]
            killed = []
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0')
            tmp = d + '/tmp'; os.makedirs(tmp, exist_ok=True)
            for c in order:
                try:
                    r = subprocess.run([d + '/all.exe', '--property', c, '--tier', 'quick', '--seed', '1', '--replays', tmp, '--tmp', tmp, '--known', HERE + '/known_findings.json', '--scale', A.scale, '--workers', str(A.cores), '--fast'],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=200)
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired: rc, o = 99, ''
                if rc:
                    v = re.search(r'^  (\S[^\n]{0,150})', re.sub(r'^    .*\n', '', o, flags=re.M), re.M)
                    killed.append([c, rc, v.group(1) if v else o[-150:]])
                    if not A.all: break
            res['killed'] = killed
            if not killed or A.all: res['tests'] = tests(i)
            with lock:
                open(A.out, 'a').write(json.dumps(res) + '\n')
        finally:
            open(f, 'w').write(orig)
    finally:
        with lock: free.append(i)


for i in range(A.workers): setup(i)
ms = mutants(MT + '/0/repo')
random.Random(A.seed).shuffle(ms)
done = set()
if os.path.exists(A.out):
    for l in open(A.out): x = json.loads(l); done.add((x['file'], x['line'], x['new']))
ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) not in done]
print(len(ms), 'mutants possible')
with ThreadPoolExecutor(A.workers) as ex: list(ex.map(one, ms[:A.count]))
