#!/usr/bin/env python3
"""Make error propagation explicit in preprocessed C (gcc -E output of a unit, shim headers in use).

pgBackRest throws with longjmp(), which CBMC does not model. This pass rewrites, token by token and touching nothing else:
  - every call f(...) that may throw, inside a function body, into ({ T r = f(...); if (verif_exc) goto H; r; }) (or the void form),
    where H is the handler of the enclosing TRY block or, outside one, the end of the function, which returns an arbitrary value to
    a caller that tests verif_exc in turn;
  - the VERIF_TRY_* markers of the shim error.h into the labels and state changes of the TRY block.
A function may throw when its body (in this translation unit) reaches verif_throw()/verif_rethrow() or a call through a function
pointer, or when it is declared in non-system source without a body here. Usage: xform.py IN.i OUT.c
"""
import re
import sys

TOKEN = re.compile(
    r'\s+|#[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_$][A-Za-z0-9_$]*|\.?[0-9](?:[eEpP][+-]|[A-Za-z0-9_.])*|'
    r'<<=|>>=|\.\.\.|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|.', re.S)
IDENT = re.compile(r'[A-Za-z_$]')

NOTHROW = {'verif_in', 'verif_in_bytes', 'verif_catch', 'memNew', 'memNewPtrArray', 'memResize', 'memFree', 'verif_objSet'}
KEYWORD = {'if', 'while', 'for', 'switch', 'return', 'sizeof', 'do', 'else', 'case', 'goto', '__typeof__', 'typeof', '_Static_assert',
           '__attribute__', '__asm__', 'asm', '_Alignof', 'alignof', '_Generic', '__alignof__', '__extension__', '__typeof'}
UNEVALUATED = {'sizeof', '__typeof__', 'typeof', '_Alignof', '__alignof__', '_Generic', '_Static_assert', '__attribute__', '__typeof'}
STORAGE = {'static', 'extern', 'inline', '__inline', '__inline__', '_Noreturn', 'noreturn', '__extension__'}
SCALAR = {'bool', '_Bool', 'int', 'unsigned', 'size_t', 'ssize_t', 'long', 'time_t', 'mode_t', 'TimeMSec'} | {
    a + 'int' + b + '_t' for a in ('', 'u') for b in ('8', '16', '32', '64')}


def is_builtin(t):
    return t.startswith('__builtin') or t.startswith('__CPROVER') or t.startswith('__sync') or t.startswith('__atomic')


def in_ternary(tok, i):
    while i > 0 and tok[i] not in (';', '{', '}'):
        if tok[i] == '?':
            return True
        i -= 1
    return False


def strip_ret(ret):
    out, k = [], 0
    while k < len(ret):
        if ret[k] in STORAGE:
            k += 1
        elif ret[k] == '__attribute__':
            depth = 0
            k += 1
            while True:
                depth += {'(': 1, ')': -1}.get(ret[k], 0)
                k += 1
                if depth == 0:
                    break
        else:
            out.append(ret[k])
            k += 1
    return out


class Unit:
    def __init__(self, text):
        raw = TOKEN.findall(text)
        self.pre = []                                               # white space before each token
        self.tok = []
        self.user = []
        self.files = []
        ws, user, file = '', True, ''
        for t in raw:
            if t[0] in ' \t\n\r\f':
                ws += t
            elif t[0] == '#':
                ws += t
                m = re.match(r'#\s*(?:line\s+)?\d+\s+"([^"]*)"', t)
                if m:
                    file = m[1]
                    user = not (m[1].startswith('/usr/') or m[1].startswith('<'))
            else:
                self.pre.append(ws)
                self.tok.append(t)
                self.user.append(user)
                self.files.append(file)
                ws = ''
        self.tail = ws
        self.match = {}
        stack = []
        for i, t in enumerate(self.tok):
            if t in ('(', '[', '{'):
                stack.append(i)
            elif t in (')', ']', '}'):
                j = stack.pop()
                self.match[j] = i
                self.match[i] = j
        self.scan()

    def scan(self):
        """Find declared and defined functions at the top level"""
        tok, match = self.tok, self.match
        self.proto, self.bodies, self.system = {}, [], set()
        i, start, n = 0, 0, len(tok)
        while i < n:
            t = tok[i]
            if t == ';':
                start = i + 1
            elif t in ('{', '['):
                i = match[i]
            elif t == '(':
                name = tok[i - 1] if i > start else ''
                close = match[i]
                nxt = close + 1
                while nxt < n and tok[nxt] in ('__attribute__', '__asm__', 'asm'):
                    nxt = match[nxt + 1] + 1
                after = tok[nxt] if nxt < n else ''
                if IDENT.match(name) and name not in KEYWORD and after in ('{', ';', ','):
                    ret = strip_ret(tok[start:i - 1])
                    if ret and 'typedef' not in tok[start:i] and '=' not in ret:
                        if self.user[i - 1]:
                            self.proto[name] = ret if name not in self.proto or after == '{' else self.proto[name]
                        else:
                            self.system.add(name)
                        if after == '{':
                            if self.user[i - 1]:
                                self.bodies.append((name, ret, nxt, match[nxt]))
                            i = match[nxt] + 1
                            start = i
                            continue
                i = close
            i += 1

    def calls(self, b, e):
        """Yield (kind, first, open, close): kind is a function name or None for a pointer; first is the first token of the call"""
        tok, match = self.tok, self.match
        i = b + 1
        while i < e:
            t = tok[i]
            if t in UNEVALUATED:
                if tok[i + 1] == '(':
                    i = match[i + 1] + 1
                else:
                    i += 1
                continue
            if t == '(' and i > b + 1:
                p = tok[i - 1]
                if IDENT.match(p) and p not in KEYWORD:
                    if tok[i - 2] in ('->', '.'):
                        s = self.operand(i - 3)
                        yield None, s, i, match[i]
                    elif IDENT.match(tok[i - 2]) and tok[i - 2] not in KEYWORD or p in self.system or is_builtin(p):
                        pass                                        # local declaration, or system function
                    elif p in self.proto:
                        yield p, i - 1, i, match[i]
                    elif not self.is_type_decl(i):
                        yield None, i - 1, i, match[i]
                elif p == ')' and tok[match[i - 1] + 1] == '*':
                    yield None, match[i - 1], i, match[i]           # (*f)(...)
                elif p == ']' and tok[match[i] + 1] not in ('{',):
                    yield None, self.operand(i - 1), i, match[i]    # f[x](...)
            i += 1

    def operand(self, s):
        """First token of the postfix expression that ends at token s"""
        tok, match = self.tok, self.match
        while True:
            if tok[s] == ']':
                s = match[s] - 1
            elif tok[s] == ')':
                o = match[s]
                if IDENT.match(tok[o - 1]) and tok[o - 1] not in KEYWORD:
                    s = o - 1
                else:
                    return o
            elif tok[s - 1] in ('->', '.'):
                s -= 2
            else:
                return s

    def is_type_decl(self, i):
        return self.tok[self.match[i] + 1] == '(' and self.tok[i + 1] == '*'

    def transform(self):
        tok, match = self.tok, self.match
        defined = {x[0] for x in self.bodies}
        callees = {}
        for name, ret, b, e in self.bodies:
            callees.setdefault(name, []).extend(c[0] for c in self.calls(b, e))
        throw = {f for f in self.proto if f not in defined and f not in NOTHROW}
        throw |= {'verif_throw', 'verif_rethrow'}
        changed = True
        while changed:
            changed = False
            for f, cs in callees.items():
                if f not in throw and f not in NOTHROW and any(c is None or c in throw for c in cs):
                    throw.add(f)
                    changed = True
        before, after, replace = {}, {}, {}
        uid = 0
        for name, ret, b, e in self.bodies:
            if name not in throw or name in ('verif_throw', 'verif_rethrow'):
                continue
            calls = {c[2]: c for c in self.calls(b, e) if c[0] is None or c[0] in throw}
            uid += 1
            fn_label = 'VX_%d' % uid
            used_fn = False
            trys = []
            for i in range(b + 1, e):
                t = tok[i]

                def target():
                    nonlocal used_fn
                    if trys:
                        return {'try': 'VC_%d', 'catch': 'VF_%d', 'finally': 'VE_%d'}[trys[-1][1]] % trys[-1][0]
                    used_fn = True
                    return fn_label

                if t == 'VERIF_TRY_OPEN':
                    uid += 1
                    trys.append([uid, 'try'])
                    replace[i] = ''
                elif t in ('VERIF_TRY_CATCH', 'VERIF_TRY_FINALLY'):
                    c = trys[-1]
                    text = ''
                    if c[1] == 'try':
                        text += 'if (0) { VC_%d: TRY_state = 1; verif_exc = 0; }' % c[0]
                        c[1] = 'catch'
                    if t == 'VERIF_TRY_FINALLY':
                        text += 'if (0) { VF_%d: TRY_state = 3; verif_exc = 0; }' % c[0]
                        c[1] = 'finally'
                    replace[i] = text
                elif t == 'VERIF_TRY_END':
                    c = trys.pop()
                    if c[1] == 'catch':
                        text = 'if (0) { VF_%d: TRY_state = 3; verif_exc = 0; }' % c[0]
                    else:
                        text = 'if (0) { VE_%d: TRY_state = 3; verif_exc = 0; }' % c[0]
                    replace[i] = text + 'if (TRY_state == 1 || TRY_state == 3) { verif_exc = 1; goto %s; }' % target()
                elif i in calls:
                    callee, first, op, close = calls[i]
                    uid += 1
                    if callee in ('verif_throw', 'verif_rethrow'):
                        before[first] = '({ ' + before.get(first, '')
                        after[close] = '; goto %s; })' % target() + after.get(close, '')
                    elif callee is not None:
                        rt = self.proto[callee]
                        if rt == ['void']:
                            before[first] = '({ ' + before.get(first, '')
                            after[close] = '; if (verif_exc) goto %s; })' % target() + after.get(close, '')
                        else:
                            before[first] = '({ %s VR_%d = ' % (' '.join(rt), uid) + before.get(first, '')
                            # A pointer is the address of verif_sentinel if and only if an error is propagating
                            test = 'if (verif_exc) goto %s;' % target()
                            if '*' in rt and callee in defined:
                                test = 'if (VR_%d == (void *)&verif_sentinel) goto %s; verif_exc = 0;' % (uid, target())
                            after[close] = '; %s VR_%d; })' % (test, uid) + after.get(close, '')
                    elif tok[close + 1] == ';' and not (tok[first - 1] == ':' and in_ternary(tok, first - 1)) and (
                            tok[first - 1] in (';', '{', '}', ')', 'else', ':') or (tok[first - 1] == 'return' and ret == ['void'])):
                        before[first] = '({ ' + before.get(first, '')
                        after[close] = '; if (verif_exc) goto %s; })' % target() + after.get(close, '')
                    else:
                        expr = ' '.join(tok[first:close + 1])
                        before[first] = '({ __typeof__(%s) VR_%d = ' % (expr, uid) + before.get(first, '')
                        after[close] = '; if (verif_exc) goto %s; VR_%d; })' % (target(), uid) + after.get(close, '')
            if used_fn:
                # (the body becomes a block of its own so that no jump to the end enters the scope of a declaration)
                after[b] = after.get(b, '') + ' {'
                before[e] = before.get(e, '') + ' }'
                if ret == ['void']:
                    before[e] = before.get(e, '') + ' ; %s: ; ' % fn_label
                else:
                    rt = ret if '*' in ret else [x for x in ret if x != 'const']
                    # (the caller looks at the value only when no error is propagating)
                    # (verif_hint is what a model would have returned: values that do not depend on the error stay constants)
                    init = ' = (void *)&verif_sentinel' if '*' in ret else ' = verif_hint' if rt[-1] in SCALAR else ''
                    before[e] = before.get(e, '') + ' ; %s: { %s verif_ret%s; return verif_ret; } ' % (fn_label, ' '.join(rt), init)
        out = []
        for i, t in enumerate(tok):
            out += [self.pre[i], before.get(i, ''), replace.get(i, t), after.get(i, '')]
        out.append(self.tail)
        return ''.join(out)


def rename_system(text, names):
    """Calls of the listed system functions in non-system code go to the models verif_sys_NAME; nothing else changes"""
    unit = Unit(text)
    out = []
    for i, t in enumerate(unit.tok):
        if (t in names and unit.user[i] and unit.tok[i + 1] == '(' and unit.tok[i - 1] not in ('.', '->') and
                not unit.tok[i - 1] == '*' and not (IDENT.match(unit.tok[i - 1]) and unit.tok[i - 1] not in KEYWORD)):
            t = 'verif_sys_' + t
        out += [unit.pre[i], t]
    out.append(unit.tail)
    return ''.join(out)


def rename_body(text, names):
    """A function that a harness replaces by its contract: the body in the repository's source becomes NAME__body, the unit (which
    defines the contract under its own name) is left alone. Calls are untouched, so every caller sees the contract."""
    unit = Unit(text)
    ren = set()
    files = unit.files
    for name, ret, b, e in unit.bodies:
        if name in names:
            i = b
            while not (unit.tok[i] == name and unit.tok[i + 1] == '('):
                i -= 1
            if '/units/' not in files[i] and '/vlib/' not in files[i]:
                ren.add(i)
    out = []
    for i, t in enumerate(unit.tok):
        out += [unit.pre[i], t + '__body' if i in ren else t]
    out.append(unit.tail)
    return ''.join(out)


if __name__ == '__main__':
    # xform.py IN OUT cbmc|native [system function ...] [body:function ...]
    text = open(sys.argv[1]).read()
    names = {x for x in sys.argv[4:] if not x.startswith('body:')}
    bodies = {x[5:] for x in sys.argv[4:] if x.startswith('body:')}
    if names:
        text = rename_system(text, names)
    if bodies:
        text = rename_body(text, bodies)
    if sys.argv[3] == 'cbmc':
        text = Unit(text).transform()
    open(sys.argv[2], 'w').write(text)
