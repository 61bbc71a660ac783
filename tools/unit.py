"""Builds one Verus unit from contract files and the repository's current source, runs Verus on it."""
import shutil
import os, re, sys, json, subprocess, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cxx2verus import *
import cxx2verus
from typelib_tr import Translator

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERUS = '/opt/veriftools/verus/verus'


class Unit:
    def __init__(self, name, repo, work, mutate=None):
        self.name, self.repo, self.work = name, repo, work
        self.tr = Translator(repo, work)
        self.items = []
        self.files = []
        self.guard = []
        # name@arg: the contracts of a template, for one template argument
        self.arg = name.split('@')[1].replace('_', ' ') if '@' in name else ''
        self.load(name.split('@')[0] + '.rs')
        self.extracted, self.failed, self.notes = [], {}, []
        self.assumed = {}

    def load(self, fn):
        if fn in self.files:
            return
        self.files.append(fn)
        text = open(os.path.join(VERIF, 'contracts', fn)).read()
        if '%T' in text:
            n = Translator.NUMS[self.arg]
            text = text.replace('%Tsize', str(n[0])).replace('%Tcat', Translator.NUMCATS[n[1]])
            text = text.replace('%T~', self.arg.replace(' ', '~')).replace('%T', self.arg)
        rest = []
        for line in text.split('\n'):
            m = re.match(r'^\s*//@include\s+(\S+)', line)
            if m:
                self.load(m.group(1))
            elif re.match(r'^\s*//@inst\s', line):
                # a file that instantiates templates of the repository
                _, nm, code = line.strip().split(None, 2)
                open(os.path.join(self.work, nm), 'w').write(code.replace('\\n', '\n') + '\n')
            elif re.match(r'^\s*//@guard\s', line):
                self.guard.append(line.split('//@guard', 1)[1])
            else:
                rest.append(line)
        self.items += parse_contracts('\n'.join(rest))

    def build(self, force_external=None):
        """Translate; returns rust text and a line map."""
        force_external = force_external or {}
        tr = self.tr
        tr.specs = {}
        for k, v in self.items:
            if k == 'fn':
                tr.specs[v.rust] = v
        for k, v in self.items:
            if k == 'fn' and v.rust not in tr.nodes:
                try:
                    tr.nodes[v.rust] = tr.resolve(v)
                except Ext as e:
                    self.failed[v.rust] = 'not found: ' + str(e)
        out = ['#![allow(unused)]', 'use vstd::prelude::*;', 'verus! {']
        self.spans = []
        self.extracted = []
        for k, v in self.items:
            if k == 'raw':
                start = sum(x.count('\n') + 1 for x in out)
                out.append(v)
                continue
            cls_impl = v.attr.get('impl')
            try:
                if v.rust in self.failed and v.rust not in tr.nodes:
                    raise Ext(self.failed[v.rust])
                if v.attr.get('assumed'):
                    # only the contract: the body is decided in the unit named there, or stays an assumption
                    text = self.assumed_text(v)
                    self.assumed[v.rust] = v.attr['assumed']
                    out.append('%s {\n%s\n}' % (cls_impl.replace('~', ' '), text) if cls_impl else text)
                    continue
                if v.rust in force_external:
                    raise Ext(force_external[v.rust])
                cls, node, idx = tr.nodes[v.rust]
                f = Fn(tr, v, cls, node, idx)
                text = f.translate()
                self.extracted.append(v.rust)
                self.notes += ['%s: %s' % (v.rust, x) for x in f.notes]
                for l in v.loops:
                    if (v.rust, 'loop %d' % l) not in tr.used_anchors:
                        self.notes.append('%s: loop %d of the contract is gone; the obligations of the rest stand' % (v.rust, l))
            except (Ext, KeyError, IndexError, TypeError, AttributeError) as e:
                self.failed[v.rust] = '%s: %s' % (type(e).__name__, e)
                if v.rust in self.extracted:
                    self.extracted.remove(v.rust)
                text = self.assumed_text(v)
            start = sum(x.count('\n') + 1 for x in out) + 1
            if cls_impl:
                text = '%s {\n%s\n}' % (cls_impl.replace('~', ' '), text)
            out.append(text)
            end = sum(x.count('\n') + 1 for x in out)
            self.spans.append((start, end, v.rust))
        out.append('// must NOT be provable: guards against a verifier or an axiom that accepts everything\nproof fn vacuity_guard() ensures false {\n' + '\n'.join(self.guard) + '\n}')
        out.append(tr.literal_fns())
        out.append('fn main() {}')
        out.append('}')
        return '\n'.join(out)

    def assumed_text(self, v):
        """The contract alone (used so that callers are still checked when a function cannot be translated)."""
        if v.rust not in self.tr.nodes:
            return '// %s: not available' % v.rust
        cls, node, idx = self.tr.nodes[v.rust]
        f = Fn(self.tr, v, cls, node, idx)
        real = f.stmts
        f.stmts = lambda ns: None
        f.collect_locals = lambda b: None
        f.assigned_vars = lambda b: set()
        try:
            t = f.translate()
        except Exception as e:
            return '// %s: no signature (%s)' % (v.rust, e)
        i = t.index('#[verifier::loop_isolation(false)]')
        t = t[:i] + '#[verifier::external_body]' + t[i + len('#[verifier::loop_isolation(false)]'):]
        j = t.rindex('\n{')
        return t[:j] + '\n{ unimplemented!() }'

    def where(self, line):
        for a, b, r in self.spans:
            if a <= line <= b:
                return r
        return None

    def run(self, timeout=600, rlimit=60, threads=8, extra=()):
        """Translate and verify; retries with functions that do not compile turned into assumptions."""
        t0 = time.time()
        force = {}
        for attempt in range(8):
            text = self.build(force)
            path = os.path.join(self.work, re.sub(r'\W', '_', self.name) + '.rs')
            open(path, 'w').write(text)
            cmd = [VERUS, path, '--output-json', '--time', '--rlimit', str(rlimit), '--num-threads', str(threads), '--multiple-errors', '4', '--triggers-mode', 'silent'] + list(extra)
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=self.work)
                so, se = p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
            except subprocess.TimeoutExpired:
                return self.result({}, 'verifier timeout', text, path, time.time() - t0, timed_out=True)
            try:
                js = json.loads(so[so.index('{'):]) if '{' in so else {}
            except ValueError:
                js = {}
            vr = js.get('verification-results', {})
            if vr.get('verified') is not None and not vr.get('encountered-vir-error') and 'times-ms' in js and (vr['verified'] or vr['errors']):
                return self.result(js, se, text, path, time.time() - t0)
            # front-end errors: blame the functions they point into
            bad = {}
            for m in re.finditer(r'error(?:\[\w+\])?: (.*)\n\s*--> [^\n:]+:(\d+):', se):
                r = self.where(int(m.group(2)))
                if r and r not in force:
                    bad[r] = 'translated text rejected: ' + m.group(1)
            if not bad:
                return self.result(js, se, text, path, time.time() - t0, broken=True)
            if os.environ.get('SHOW_REJECTED'):
                print(se)
                shutil.copy(path, path + '.rejected')
            force.update(bad)
        return self.result({}, se, text, path, time.time() - t0, broken=True)

    def result(self, js, stderr, text, path, wall, timed_out=False, broken=False):
        errs = {}
        # errors located inside a function span or inside raw text (lemmas)
        cur = None
        blocks = re.split(r'\n(?=error)', '\n' + stderr)
        for b in blocks:
            m = re.match(r'\n?error(?:\[\w+\])?: (.*)', b)
            if not m or 'aborting due to' in m.group(1):
                continue
            locs = [int(x) for x in re.findall(r'--> [^\n:]+:(\d+):', b)]
            # a line marked by "at the end of the function body"/"failed here" belongs to the function
            marks = [int(x) for x in re.findall(r'\n\s*(\d+)\s*\|', b)]
            fn = None
            for l in locs + marks:
                fn = self.where(l)
                if fn:
                    break
            if fn is None:
                fn = self.raw_fn(text, locs[0] if locs else 0)
            errs.setdefault(fn, []).append(b.strip())
        vr = js.get('verification-results', {})
        return {'unit': self.name, 'verified': vr.get('verified', 0), 'errors': vr.get('errors', 0), 'failures': errs,
                'not_extracted': dict(self.failed), 'assumed': dict(self.assumed), 'extracted': list(self.extracted), 'broken': broken, 'timed_out': timed_out,
                'stderr': stderr, 'path': path, 'wall': wall, 'json': js, 'notes': list(dict.fromkeys(self.notes)), 'inlined': sorted(self.tr.inlined),
                'lines': text.count('\n')}

    def raw_fn(self, text, line):
        ls = text.split('\n')
        for i in range(min(line, len(ls)) - 1, -1, -1):
            m = re.match(r'\s*(?:pub )?(?:open |closed )?(?:broadcast )?(?:proof|spec|exec)?\s*fn (\w+)', ls[i])
            if m:
                return 'lemma ' + m.group(1)
        return 'unit'


if __name__ == '__main__':
    name = sys.argv[1]
    repo = sys.argv[2] if len(sys.argv) > 2 else '/repo'
    work = '/tmp/work_' + name
    u = Unit(name, repo, work)
    r = u.run(extra=sys.argv[3:])
    js = r.pop('json')
    se = r.pop('stderr')
    if r['errors'] or r['broken']:
        print(se[-int(os.environ.get('TAIL', '6000')):])
    for k in ('verified', 'errors', 'not_extracted', 'extracted', 'broken', 'timed_out', 'path', 'wall', 'notes', 'inlined'):
        print(k, r[k])
    print('FAILED IN', list(r['failures']))
    if '-v' in sys.argv:
        pass
    tm = []
    for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            tm.append((f['time-micros'] / 1e6, f['function'], f['rlimit']))
    for t in sorted(tm, reverse=True)[:8]:
        print('%.2fs %s %d' % t)
