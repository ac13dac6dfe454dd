"""C13: the command-line driver in all the scenarios of Driver.tla."""
import os
import re
import shutil
import algol
import parse
import tlc
import x1

A = dict(ok="begin PRINTTEXT(`OK'); NLCR end", sub="begin PRINTTEXT(`SUB'); NLCR end",
         need='begin integer i; print(SUM(i, 1, 0, 1)); NLCR end',
         rt='begin integer i; print(7); NLCR; i := 0; print(1 // i); print(8) end',
         inp='begin print(read); NLCR end', nw="begin PRINTTEXT(`NW'); NLCR end",
         obj="begin PRINTTEXT(`OBJ'); NLCR end", stale="begin PRINTTEXT(`STALE'); NLCR end")
OUT = dict(ok=b'OK\n', sub=b'SUB\n', inp=b'42\n', rt=b'7\n', obj=b'OBJ\n', robj=b'7\n',
           needL1=b'100\n', needL2=b'200\n', needR1=b'300\n', needR2=b'400\n')
ARG = dict(t1=['--trace=t1.txt'], t2=['--trace', 't2.txt'], tbad=['--trace=nodir/t.txt'], bad=['-x'], badl=['--bogus'],
           teos=['--trace'], ok=['ok.a60'], need=['need.a60'], rt=['rt.a60'], syn=['syn.a60'], na=['na.a60'],
           inp=['inp.a60'], sub=['subdir/sub.a60'], nw=['nw.a60'], dir=['dir.a60'], obj=['obj.x1'], robj=['robj.x1'],
           dmg=['dmg.x1'], nx=['nx.x1'], ent=['ent.x1'], txt=['other.txt'], none=['plain'],
           L1=['L1.lib'], L2=['L2.lib'], Lx=['Lx.lib'])
SUM = os.path.join(x1.REPO, 'library', 'sum.src')
INSTR = re.compile(rb'^[0-7]{5}: ', re.M)


class World:
    def __init__(self, X):
        self.X = X
        self.d = os.path.join(x1.scratch(), 'driver')
        os.makedirs(self.d + '/files/subdir')
        os.makedirs(self.d + '/files/nw.x1')
        os.makedirs(self.d + '/files/dir.a60')
        self.files = {}
        comp = self.object
        for n in ('ok', 'need', 'rt', 'inp', 'nw'):
            self.put('files/%s.a60' % n, algol.source(parse.program(A[n])).encode())
        self.put('files/subdir/sub.a60', algol.source(parse.program(A['sub'])).encode())
        self.put('files/syn.a60', algol.source(parse.program(A['ok'])).encode().replace(b';', b'; undeclared := 1;', 1))
        self.libs()
        obj = comp('obj')
        self.put('files/obj.x1', obj)
        self.put('files/robj.x1', comp('rt'))
        self.put('files/dmg.x1', obj + b'what is this\n')
        self.put('files/ent.x1', b'10100 12\n')
        stale = comp('stale')
        for n in ('ok', 'need', 'rt', 'inp', 'syn', 'na', 'sub', 'dir'):
            self.put('files/%s.x1' % n, stale)
        self.put('files/other.txt', obj)
        self.put('files/plain', obj)
        # compilers
        for c, t in dict(fail1='echo something; exit 1', fail9='echo something; exit 9', killed='kill -9 $$',
                         garbage='echo hello world').items():
            os.makedirs('%s/bin-%s' % (self.d, c))
            self.put('bin-%s/x1algc' % c, b'#!/bin/sh\n' + t.encode() + b'\n', 0o755)
        os.makedirs(self.d + '/bin-absent')
        os.makedirs(self.d + '/bin-real')
        shutil.copy(X.comp, self.d + '/bin-real/x1algc')
        # installations
        for r in ('no', 'R1', 'R2'):
            b = '%s/inst-%s/x/bin' % (self.d, r)
            os.makedirs(b)
            shutil.copy(X.sim, b + '/x1sim')
        os.makedirs(self.d + '/inst-R1/x/lib')
        shutil.copy(self.d + '/R1.lib', self.d + '/inst-R1/x/lib/x1algol.lib')
        os.makedirs(self.d + '/inst-R2/library')
        shutil.copy(self.d + '/R2.lib', self.d + '/inst-R2/library/x1algol.lib')
        os.makedirs(self.d + '/home-no')
        os.makedirs(self.d + '/home-L2')
        shutil.copy(self.d + '/files/L2.lib', self.d + '/home-L2/.x1algol.lib')

    def put(self, name, data, mode=0o644):
        with open(os.path.join(self.d, name), 'wb') as f:
            f.write(data)
        os.chmod(os.path.join(self.d, name), mode)

    def object(self, n):
        r = self.X.compile(algol.source(parse.program(A[n])))
        if r.rc != 0:
            raise x1.BuildError('a simple program does not compile: %r' % r.err)
        return r.out

    def libs(self):
        """versions of SUM that start with another value"""
        src = open(SUM).read()
        for k, n in enumerate(('L1', 'L2', 'R1', 'R2')):
            t = re.sub(r'^(\s*064\s+)0\s+0000000000', lambda m: m.group(1) + '0 0%o' % (100 * (k + 1)), src, flags=re.M)
            r = self.X.exec([self.X.root + '/bin/objfile', '0'], self.d, t.encode())
            if r.rc != 0:
                raise x1.BuildError('the library assembler fails on sum.src')
            self.put(('files/' if n[0] == 'L' else '') + n + '.lib', r.out)

    def run(self, sc, timeout=20):
        words, env = sc[0], sc[1]
        d = self.X.newdir()
        shutil.copytree(self.d + '/files', d, dirs_exist_ok=True)
        e = {'PATH': self.d + '/bin-' + env['comp'] + ':/usr/bin:/bin', 'LC_ALL': 'C.UTF-8',
             'HOME': '%s/home-%s' % (self.d, env['homelib'])}
        if env['envlib'] != 'unset':
            e['X1ALGOL_LIB'] = '%s/files/%s.lib' % (self.d, env['envlib'])
        argv = ['%s/inst-%s/x/bin/x1sim' % (self.d, env['rellib'])]
        for w in words:
            argv += ARG.get(w, [w])
        r = self.X.exec(argv, d, b'42 \n', timeout, env=e)
        tr = {}
        for t in ('t1', 't2'):
            if os.path.exists(d + '/%s.txt' % t):
                tr[t] = open(d + '/%s.txt' % t, 'rb').read()
        shutil.rmtree(d, ignore_errors=True)
        return argv, r, tr


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def judge(sc, r, tr):
    """what is wrong with the outcome, or nothing"""
    words, env, res, dbg, sink, trs = sc
    mixed = dbg and sink == ''
    if r.timeout:
        return 'does not end'
    if r.rc not in (0, 1):
        return 'exit status %d' % r.rc
    if sorted(trs) != sorted(tr):
        return 'trace files %s instead of %s' % (sorted(tr), sorted(trs))
    if res['alt'] and r.rc == 1 and r.err and not r.out.strip():
        return None
    if (r.rc == 0) != res['ok']:
        return 'exit status %d' % r.rc
    if not res['ok'] and not r.err.strip():
        return 'no message'
    k = res['kind']
    out = r.out
    if b'STALE' in out:
        return 'a stale object program was run'
    if k == 'help' and not (b'Usage' in out and b'--trace' in out):
        return 'no help text'
    if k == 'version' and b'0.0' not in out:
        return 'no version'
    if k == 'usage' and b'Usage' not in r.err:
        return 'no usage message'
    if k in ('usage', 'error'):
        if mixed:
            if INSTR.search(out):
                return 'something is executed'
        elif out.strip():
            return 'output where there should be none'
    if k == 'run':
        want = OUT[res['out']]
        if mixed:
            if not subsequence(want, out) or not INSTR.search(out):
                return 'output or trace missing'
        elif out != want:
            return 'output %r' % out[:200]
    for t in trs:
        n = len(INSTR.findall(tr[t]))
        if k == 'run' and dbg and t == sink:
            if n < 3:
                return 'trace is empty'
        elif n:
            return 'unexpected trace'
    return None


def c13(ck):
    W = World(ck.X)
    R = tlc.run('Driver', cfg=None if ck.quick else 'Driver2.cfg', timeout=400)
    if not R.ok:
        raise tlc.TlcError(R.text[-3000:])
    sc = R.lines('@D')
    ck.cov['states'] += R.distinct
    ck.cov['transitions'] += R.generated
    ck.log('%d scenarios' % len(sc))

    def one(s):
        argv, r, tr = W.run(s)
        return judge(s, r, tr), argv, r
    got = x1.pmap(one, sc)
    for s, (w, argv, r) in zip(sc, got):
        if w is None:
            ck.cov['traces_validated_against_impl'] += 1
            continue
        if len(ck.viol) >= 3:
            break
        argv, r, tr = W.run(s, 60)
        w = judge(s, r, tr)
        if w is None:
            ck.notes.append('a first result of %s was not confirmed' % s[:2])
            continue
        ck.violation('driver:' + ' '.join(s[0]) + ':' + ','.join(s[1].values()), w,
                     'command: %s\nsurroundings: %s\nspecified: %s\nexit %d\nstdout %r\nstderr %r'
                     % (argv, s[1], s[2:], r.rc, r.out[:1500], r.err[:600]))
    ck.count('scenarios', len(sc))
    for s, (w, argv, r) in list(zip(sc, got))[500::1500]:
        ck.sample({'command': argv[1:], 'surroundings': s[1], 'specified': s[2], 'exit': r.rc,
                   'stdout': r.out.decode('utf-8', 'replace')[:200]})
