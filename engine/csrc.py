"""Mechanical instrumentation of preprocessed C.

The text that is verified is the output of `gcc -E -P` on the file in /repo, with exactly these edits:
  * `stub F`     : the definition of F is renamed to F__real and a prototype of F is left in its place
                   (the caller is then checked against F's contract, not its body);
  * `loop F i`   : contract clauses are inserted behind the header of the i-th loop of F;
  * `ghost F i`  : a ghost statement is put at the start of that loop's body,
  * `call F : G` : calls of the variadic function F are renamed to G (a macro that passes the same arguments to a ghost
                   function of fixed arity, with the types of the arguments);
  * `op F : A | * | B : G` : the operation A * B (or another operator) in F is written as the call G(A, B); G's contract states
                   what the verifier may use about the operation (lemmas about it are discharged in proofs/arith.c);
  * `union T : M`: the member M of the union inside of struct T is declared first (the verifier resolves pointers inside of a union
                   through its first member; the order of the members of a union has no meaning in C);
  * `after F i`  : or behind the loop. Ghost statements write ghost variables only; the one exception is SAME(p, e), which
                   asserts p == e and then assigns e to p (a no-op that tells the verifier what p points to).
Nothing else is rewritten, reordered or dropped.
"""
import re

TOK = re.compile(r'''"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[A-Za-z_]\w*|\d[\w.]*|[{}()\[\];,]|\S''')
KW = {'if', 'while', 'for', 'switch', 'return', 'sizeof', 'do', 'else', '__attribute__', '__asm__', 'asm',
      '_Static_assert', '__typeof__', 'typeof', '__extension__', '_Alignof', '_Alignas'}


class StructureError(Exception):
    """The source no longer has the shape a contract is attached to."""


def tokens(text):
    return [(m.group(0), m.start(), m.end()) for m in TOK.finditer(text)]


class Source:
    def __init__(self, text):
        self.text = text
        self.t = tokens(text)
        self.funcs = {}
        self._match()
        self._find_functions()

    def _match(self):
        self.match = {}
        st = []
        for i, (s, _, _) in enumerate(self.t):
            if s in '({[' and len(s) == 1:
                st.append(i)
            elif s in ')}]' and len(s) == 1:
                if not st:
                    raise StructureError('unbalanced source')
                j = st.pop()
                self.match[i] = j
                self.match[j] = i

    def _find_functions(self):
        t = self.t
        i = 0
        start = 0
        n = len(t)
        while i < n:
            s = t[i][0]
            if s == ';':
                start = i + 1
                i += 1
                continue
            if s in '([' and len(s) == 1:
                close = self.match[i]
                if s == '(' and i > 0 and re.match(r'[A-Za-z_]\w*$', t[i - 1][0]) and t[i - 1][0] not in KW:
                    name = t[i - 1][0]
                    k = close + 1
                    while k < n and t[k][0] in ('__attribute__', '__asm__', 'asm'):
                        k = self.match[k + 1] + 1
                    if k < n and t[k][0] == '{':
                        self.funcs[name] = dict(start=start, name=i - 1, lpar=i, rpar=close, lbrace=k,
                                                rbrace=self.match[k])
                        i = self.match[k] + 1
                        start = i
                        continue
                i = close + 1
                continue
            if s == '{':
                i = self.match[i] + 1
                continue
            i += 1

    def loops(self, f):
        """Loops of f in source order: list of dicts(kind, ins) with ins = char offset for the contract."""
        if f not in self.funcs:
            raise StructureError('function %s not found' % f)
        fn = self.funcs[f]
        t = self.t
        res = []
        dowhile = set()
        i = fn['lbrace'] + 1
        while i < fn['rbrace']:
            s = t[i][0]
            if s == 'do' and t[i + 1][0] == '{':
                e = self.match[i + 1]
                if t[e + 1][0] != 'while':
                    raise StructureError('do without while')
                dowhile.add(e + 1)
                c = self.match[e + 2]
                res.append(dict(kind='do', ins=t[c][2], body=t[i + 1][2], pos=i, endpos=t[c + 1][2], head=self.text[t[e + 1][1]:t[c][2]]))
            elif s in ('for', 'while') and i not in dowhile and t[i + 1][0] == '(':
                c = self.match[i + 1]
                b = t[c + 1][0] == '{'
                res.append(dict(kind=s, ins=t[c][2], body=t[c + 1][2] if b else None, pos=i,
                                head=self.text[t[i][1]:t[c][2]],
                                stmt=t[c + 1][1], endpos=self._stmt_end(c + 1), end=None if b else self._stmt_end(c + 1)))
            i += 1
        return res

    def _stmt_end(self, i):
        t = self.t
        if t[i][0] == '{':
            return t[self.match[i]][2]
        while t[i][0] != ';':
            i = self.match[i] + 1 if t[i][0] in ('(', '{', '[') else i + 1
        return t[i][2]

    def instrument(self, stubs=(), loops=(), ghosts=(), afters=(), calls=(), ops=(), unions=()):
        """loops: [(func, index, expected_count|None, clause_text)]; returns new text."""
        edits = []
        for f in stubs:
            if f not in self.funcs:
                continue
            fn = self.funcs[f]
            a = self.t[fn['start']][1]
            sig = self.text[a:self.t[fn['rpar']][2]]
            edits.append((a, a, sig + ';\n'))
            s, b, e = self.t[fn['name']]
            edits.append((b, e, f + '__real'))
        for f, idx, total, clause in loops:
            ls = self.loops(f)
            if total is not None and len(ls) != total:
                raise StructureError('function %s has %d loops, contract expects %d' % (f, len(ls), total))
            if idx >= len(ls):
                raise StructureError('function %s has no loop %d' % (f, idx))
            edits.append((ls[idx]['ins'], ls[idx]['ins'], 
                          '\n#pragma CPROVER check push\n' + ''.join('#pragma CPROVER check disable "%s"\n' % c for c in
                          ('pointer', 'bounds', 'pointer-primitive', 'signed-overflow', 'pointer-overflow', 'conversion', 'unsigned-overflow', 'div-by-zero', 'undefined-shift', 'float-overflow', 'nan')) +
                          clause + '\n#pragma CPROVER check pop\n'))
        for f, idx, stmt in ghosts:
            ls = self.loops(f)
            if idx >= len(ls):
                raise StructureError('function %s has no loop %d' % (f, idx))
            L = ls[idx]
            if L['body'] is not None:
                edits.append((L['body'], L['body'], ' ' + stmt + ' '))
            else:
                edits.append((L['stmt'], L['stmt'], '{ ' + stmt + ' '))
                edits.append((L['end'], L['end'], ' }'))
        for f, idx, stmt in afters:
            ls = self.loops(f)
            if idx >= len(ls):
                raise StructureError('function %s has no loop %d' % (f, idx))
            e = ls[idx]['endpos']
            edits.append((e, e, ' ' + stmt + ' '))
        for st, mem in unions:
            m = re.search(r'\b%s\s*\{[^{}]*\bunion\s*\w*\s*\{([^{}]*)\}' % st, self.text)
            d = m and re.search(r'[^;{]*\b%s\s*;' % mem, m.group(1))
            if not d:
                raise StructureError('struct %s has no union with a member %s' % (st, mem))
            edits.append((m.start(1), m.start(1), d.group(0)))
            edits.append((m.start(1) + d.start(), m.start(1) + d.end(), ''))
        for f, g in calls:
            for fn in self.funcs.values():
                for i in range(fn['lbrace'], fn['rbrace']):
                    if self.t[i][0] == f and self.t[i + 1][0] == '(':
                        edits.append((self.t[i][1], self.t[i][2], g))
        for f, a, op, b, g in ops:
            if f not in self.funcs:
                raise StructureError('function %s not found' % f)
            fn = self.funcs[f]
            ta, tb = [x[0] for x in tokens(a)], [x[0] for x in tokens(b)]
            pat = ta + [x[0] for x in tokens(op)] + tb
            found = 0
            i = fn['lbrace']
            while i < fn['rbrace'] - len(pat):
                if [x[0] for x in self.t[i:i + len(pat)]] == pat:
                    before, behind = self.t[i - 1][0], self.t[i + len(pat)][0]
                    # the neighbours bind weaker, so A op B is an operation of its own
                    if before in ('(', '=', '+', '[', ',', '<', '>', '|', 'return') and behind in (')', ';', ']', ',', '+', '-', '<', '>', '|', '&', '*'):
                        e = self.t[i + len(ta)]
                        edits.append((self.t[i][1], self.t[i][1], g + '('))
                        edits.append((e[1], self.t[i + len(pat) - len(tb)][1], ', '))
                        edits.append((self.t[i + len(pat) - 1][2], self.t[i + len(pat) - 1][2], ')'))
                        found += 1
                        i += len(pat)
                        continue
                i += 1
            if not found:
                raise StructureError('operation %s %s %s not found in %s' % (a, op, b, f))
        out = self.text
        # apply from the end; edits at the same offset keep their listed order
        for _, (a, b, s) in sorted(enumerate(edits), key=lambda p: (p[1][0], p[0]), reverse=True):
            out = out[:a] + s + out[b:]
        return out
