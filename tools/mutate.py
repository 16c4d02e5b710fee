#!/usr/bin/env python3
"""Mutation testing of the checks (development tool; no check uses it).

mutate.py gen OUT.json            list operator-level mutants of /repo's non-test sources
mutate.py tests IN.json OUT.json  keep those that compile and pass the stable tests (in 8 scratch copies)
mutate.py checks IN.json OUT.json run the checks of the mutated file against each until one catches it
Everything happens in copies under /tmp/mut."""
import sys, os, re, json, subprocess, shutil, hashlib, time
from concurrent.futures import ThreadPoolExecutor
import threading
W = '/tmp/mut'
REPO = '/repo'
GEN = ['C35', 'C27', 'C29', 'C30', 'C25', 'C28']
CHECKS = {
    'bloom_filter.rs': ['C02', 'C01', 'C03', 'C04'] + GEN,
    'partitioned_bloom_filter.rs': ['C02', 'C01', 'C03'] + GEN,
    'scalable_bloom_filter.rs': ['C04', 'C01'] + GEN,
    'dd_bloom_filter.rs': ['C19', 'C20'] + GEN,
    'count_min_sketch.rs': ['C14', 'C16', 'C15'] + GEN,
    'cuckoo_filter.rs': ['C06', 'C05', 'C07', 'C08', 'C09', 'C10'] + GEN,
    'scalable_cuckoo_filter.rs': ['C09', 'C10'] + GEN,
    'hyperloglog.rs': ['C17', 'C18'] + GEN,
    'quotient.rs': ['C11', 'C12', 'C13'] + GEN,
    'min_hash.rs': ['C22'] + GEN, 'sim_hash.rs': ['C24', 'C23'] + GEN, 'mod.rs': ['C21', 'C09', 'C06', 'C29'],
    'util.rs': ['C02', 'C26', 'C03', 'C22', 'C15', 'C25', 'C28'],
    'bit_vec.rs': ['C31', 'C02', 'C19'] + GEN, 'bitstring_vec.rs': ['C32', 'C06', 'C11'] + GEN,
}
OPS = [
    (r'(?<![<\-=])<=(?!=)', ['<', '>=']), (r'(?<=\s)<(?=\s)', ['<=', '>']), (r'(?<=\s)>(?=\s)', ['>=', '<']), (r'(?<![=])>=', ['>', '<=']),
    (r'==', ['!=']), (r'!=', ['==']), (r'(?<=\s)\+(?=\s)', ['-', '*']), (r'(?<=\s)-(?=\s)', ['+']), (r'(?<=\s)\*(?=\s)', ['/', '+']),
    (r'(?<=\s)/(?=\s)', ['*']), (r'(?<=\s)%(?=\s)', ['/']), (r'&&', ['||']), (r'\|\|(?=\s)', ['&&']), (r'(?<=\s)\^(?=\s)', ['|', '&']),
    (r'(?<=\s)<<(?=\s)', ['>>']), (r'(?<=\s)>>(?=\s)', ['<<']), (r'(?<=\s)\|(?=\s)', ['&', '^']), (r'(?<=\s)&(?=\s)', ['|', '^']),
    (r'\+=', ['-=', '=']), (r'-=', ['+=', '=']), (r'\*=', ['+=', '=']), (r'\|=', ['&=', '^=']), (r'&=', ['|=', '^=']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.ceil\(\)', ['.floor()', '.round()', '']), (r'\.floor\(\)', ['.ceil()', '.round()']),
    (r'\.round\(\)', ['.floor()', '.ceil()']), (r'\bmin\b(?=\()', ['max']), (r'\bmax\b(?=\()', ['min']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]']),
    (r'index_1', ['index_2']), (r'index_2', ['index_1']), (r'\bbreak;', ['continue;']), (r'\breturn;', ['']),
    (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']), (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']),
    (r'wrapping_add', ['wrapping_sub']), (r'wrapping_mul', ['wrapping_add']), (r'\.ln\(\)', ['.log2()']), (r'\.log2\(\)', ['.ln()']),
    (r'count_ones', ['count_zeros']), (r'trailing_zeros', ['leading_zeros']), (r'leading_zeros', ['trailing_zeros']), (r'\.\.=', ['..']),
    (r'!(?=self|[a-z(])', ['']), (r'\.powi?f?\((?=2)', ['.powi(3 - ']), (r'as u64\b', ['as u32 as u64', 'as u16 as u64']), (r'as usize\b', ['as u16 as usize', 'as u8 as usize']),
    (r'\.next_power_of_two\(\)', ['']), (r'\.rev\(\)', ['']), (r'\.take\(', ['.skip(']), (r'rotate_left', ['rotate_right']),
    (r'if (?!let)[^{]+ \{$', ['if true {', 'if false {']), (r'while (?!let)[^{]+ \{$', ['while false {']),
]
def sources():
    out = subprocess.run(['git', 'ls-files', 'src'], cwd=REPO, stdout=subprocess.PIPE).stdout.decode().split()
    return [f for f in out if f.endswith('.rs')]
def gen():
    muts = []
    for f in sources():
        text = open(f'{REPO}/{f}').read()
        head = re.split(r'\n#\[cfg\(test\)\]\s*\n(?:pub )?mod tests', text)[0]
        hook = False
        for n, line in enumerate(head.split('\n')):
            s = line.strip()
            if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use'): continue
            code = line.split(' // ')[0]
            seen = set()
            def add(new, what):
                if new != line and new not in seen:
                    seen.add(new)
                    muts.append(dict(file=f, line=n, old=line, new=new, what=what))
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    if pat.startswith('(?<=\\s)<') and ('fn ' in code or 'impl' in code): continue
                    for r in reps: add(line[:m.start()] + r + line[m.end():], f'{m.group(0)} -> {r}')
            for m in re.finditer(r'(?<![\w.\[])(\d+)(\.\d+)?(?![\w.\]]*\d)', code):
                if 'const' in code or True:
                    a = m.group(1); fr = m.group(2) or ''
                    vals = [str(int(a) + 1)] + ([str(int(a) - 1)] if int(a) > 0 else [])
                    for v in vals: add(line[:m.start()] + v + fr + line[m.end():], f'{a} -> {v}')
            # delete a whole one-line statement
            if re.match(r'^[\w.\[\]&* (]+.*;$', s) and not s.startswith(('let', 'type', 'return', 'pub', 'mod', 'const', 'fn', 'impl')) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
                add('', 'delete statement')
    for i, m in enumerate(muts): m['id'] = i
    return muts
def sh(cmd, cwd=None, env=None, t=600):
    try:
        p = subprocess.Popen(['bash', '-c', 'ulimit -v 12000000; ' + cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        out, _ = p.communicate(timeout=t)
        return p.returncode, out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return -9, 'timeout'
def apply(repo, m):
    p = f"{repo}/{m['file']}"
    L = open(f"{REPO}/{m['file']}").read().split('\n')
    assert L[m['line']] == m['old'], m
    L[m['line']] = m['new']
    open(p, 'w').write('\n'.join(L))
def restore(repo, m): shutil.copy2(f"{REPO}/{m['file']}", f"{repo}/{m['file']}"); os.utime(f"{repo}/{m['file']}")
def pool(n, items, f, out):
    free = list(range(n)); lock = threading.Lock(); res = []; t0 = time.time()
    def go(m):
        with lock: k = free.pop()
        try: r = f(k, m)
        except Exception as e: r = dict(m, error=repr(e))
        with lock:
            free.append(k); res.append(r)
            if len(res) % 10 == 0:
                json.dump(res, open(out, 'w')); print(len(res), '/', len(items), int(time.time() - t0), 's', flush=True)
    with ThreadPoolExecutor(n) as ex: list(ex.map(go, items))
    json.dump(res, open(out, 'w')); return res
def tests(items, out):
    n = 8
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for k in range(n):
        sh(f'mkdir -p {W}/t{k} && rm -rf {W}/t{k}/repo && cp -a {REPO} {W}/t{k}/repo && sed -e s#/repo#{W}/t{k}/repo#g -e "s/--test-threads 8/--test-threads 2/" /opt/vp/test.sh > {W}/t{k}/test.sh')
    def one(k, m):
        repo = f'{W}/t{k}/repo'
        apply(repo, m)
        env = dict(os.environ, CARGO_TARGET_DIR=f'{repo}/target', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
        try:
            rc, o = sh('cargo test --all-features --offline --lib -- --test-threads 2 --skip cuckoo::scalable_cuckoo_filter::tests::', cwd=repo, env=env, t=120)
            if rc != 0: return dict(m, status='compile' if 'could not compile' in o else 'killed-by-tests')
            rc, o = sh(f'bash {W}/t{k}/test.sh {W}/t{k}/out.json', t=240)
            try: passed = set(json.load(open(f'{W}/t{k}/out.json'))['passed'])
            except Exception: passed = set()
            return dict(m, status='survives' if base <= passed else 'killed-by-tests')
        finally: restore(repo, m)
    return pool(n, items, one, out)
def checks(items, out):
    n = 3
    for k in range(n):
        sh(f'mkdir -p {W}/c{k} && rm -rf {W}/c{k}/repo && cp -a {REPO} {W}/c{k}/repo && mkdir -p {W}/c{k}/verif && rsync -a --delete --exclude seeded --exclude .git --exclude replays /verif/ {W}/c{k}/verif/ || cp -a /verif/. {W}/c{k}/verif/')
        sh(f'sed -i s#\\"/repo\\"#\\"{W}/c{k}/repo\\"# {W}/c{k}/verif/*/Cargo.toml')
    def one(k, m):
        repo = f'{W}/c{k}/repo'
        apply(repo, m)
        notes = []
        try:
            for c in CHECKS[os.path.basename(m['file'])]:
                rc, o = sh(f'PCHECK_NO_CONFIRM=1 VERIF_SEED=1 VERIF_TIER=quick bin/check {c}', cwd=f'{W}/c{k}/verif', t=300)
                if rc == 1: return dict(m, status='caught', by=c, msg=(re.findall(r'shrunk.*|failure:.*', o) or [''])[0][:300], notes=notes)
                if 'inconclusive: scenario' in o: return dict(m, status='caught', by=c, msg='does not end', notes=notes)
                if rc != 0: notes.append(f'{c}: exit {rc} {o[-200:]}')
                if 'failed\n' in o and 'building' in o: return dict(m, status='compile', notes=notes)
            return dict(m, status='MISSED', notes=notes)
        finally: restore(repo, m)
    return pool(n, items, one, out)
if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'gen':
        r = gen(); json.dump(r, open(sys.argv[2], 'w')); print(len(r))
    else:
        items = json.load(open(sys.argv[2]))
        if cmd == 'checks': items = [m for m in items if m['status'] in ('survives', 'MISSED')]
        r = (tests if cmd == 'tests' else checks)(items, sys.argv[3])
        from collections import Counter
        print(Counter(m.get('status', 'error') for m in r))
