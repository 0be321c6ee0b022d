"""The typed AST written by cppvc-dump."""
import json
import re
from val import *


def strip_targs(s):
    out, d = [], 0
    i = 0
    m = re.match(r'^(.*::)?(operator.*)$', s)
    tail = ''
    if m and m.group(2):
        # keep operator spelling
        idx = s.rfind('operator')
        tail = s[idx:]
        s = s[:idx]
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out) + tail


class Unsupported(Exception):
    pass


class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j['types']
        self.funcs = {int(k): v for k, v in j['funcs'].items()}
        self.recs = {int(k): v for k, v in j['recs'].items()}
        self.globals = {int(k): v for k, v in j['globals'].items()}
        for f in self.funcs.values():
            q = f['qname']
            if f.get('rec'):
                q = self.recs[f['rec']]['name'] + '::' + f['name']
                if f.get('ctor'):
                    q = self.recs[f['rec']]['name'] + '::(ctor)'
            f['cq'] = strip_targs(q)
        self.tname = {}
        self._shape = {}

    def T(self, t):
        return self.types[t]

    def k(self, t):
        return self.types[t].get('k')

    def noref(self, t):
        while self.types[t].get('k') == 'ref':
            t = self.types[t]['to']
        return t

    def recname(self, t):
        x = self.types[t]
        return strip_targs(x.get('name', '')) if x.get('k') == 'rec' else None

    def rec(self, t):
        return self.recs[self.types[t]['rec']]

    def targ(self, t, n=0):
        """n-th type template argument"""
        ts = []
        for a in self.types[t].get('targs', []):
            if 't' in a:
                ts.append(a['t'])
            elif 'p' in a:
                ts += [b['t'] for b in a['p'] if 't' in b]
        return ts[n]

    def targs(self, t):
        ts = []
        for a in self.types[t].get('targs', []):
            if 't' in a:
                ts.append(a['t'])
            elif 'p' in a:
                ts += [b['t'] for b in a['p'] if 't' in b]
        return ts

    def targ_int(self, t):
        for a in self.types[t].get('targs', []):
            if 'i' in a:
                return int(a['i'])

    def is_keep(self, t):
        return self.k(t) == 'rec' and self.rec(t).get('keep') and not self.rec(t).get('lambda')

    def derives(self, t, names):
        """record type t is, or derives from, a record with canonical name in names"""
        if self.k(t) != 'rec':
            return False
        if self.recname(t) in names:
            return True
        return any(self.derives(b, names) for b in self.rec(t).get('bases', []))
