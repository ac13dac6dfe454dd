"""Running TLC on the specifications."""
import json
import os
import re
import subprocess
import x1

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(x1.VERIF, 'spec')


class TlcError(Exception):
    pass


class Run:
    def __init__(self, text, rc):
        self.text, self.rc = text, rc
        m = None
        for m in re.finditer(r'(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found', text):
            pass
        self.generated = int(m.group(1).replace(',', '')) if m else 0
        self.distinct = int(m.group(2).replace(',', '')) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in text

    def lines(self, tag):
        """values printed by PrintT of the tag followed by ToJson(value)"""
        res = []
        for x in re.findall(r'^"%s(.*)"$' % re.escape(tag), self.text, re.M):
            res.append(json.loads(x.replace('\\"', '"').replace('\\\\', '\\')))
        return res


_cls = None


def classes():
    """the compiled overrides (java/BigNat.java), or nothing where they do not
    compile: the specification does not need them"""
    global _cls
    if _cls is None:
        d = os.path.join(x1.scratch(), 'classes')
        os.makedirs(d, exist_ok=True)
        try:
            p = subprocess.run(['javac', '-cp', JAR, '-d', d, os.path.join(x1.VERIF, 'java', 'BigNat.java')],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            _cls = d if p.returncode == 0 else ''
        except (OSError, subprocess.SubprocessError):
            _cls = ''
    return _cls


def run(module, cfg=None, env=None, workers=None, timeout=600, args=(), heap='6g', cwd=None,
        override=True):
    meta = os.path.join(x1.scratch(), 'tlc-%d' % (len(os.listdir(x1.scratch())) + 1))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cp = (JAR + ':' + classes()) if override and classes() else JAR
    cmd = ['timeout', '-s', 'KILL', str(timeout), 'java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap,
           '-Djava.io.tmpdir=' + meta,
           '-cp', cp, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers',
           str(workers or x1.JOBS), '-config', cfg or module + '.cfg'] + list(args) + [module + '.tla']
    p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    text = p.stdout.decode('utf-8', 'replace')
    r = Run(text, p.returncode)
    return r
