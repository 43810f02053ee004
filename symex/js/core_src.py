"""Statement and expression semantics of the JavaScript subset (ESTree).  This file is loaded twice: as it
is (synchronous code) and, by js/interp.py, rewritten so that every call of `ev`/`ex`/... becomes
`yield from` (bodies of async functions, suspended at `await`)."""


# ------------------------------------------------------------------ statements

def ex_Program(n, env):
    for s in n.body:
        r = ex(s, env)
        if r is not None:
            return r


def ex_BlockStatement(n, env):
    if n.decls:
        env = Env(env)
        hoist_block(n, env)
    for s in n.body:
        r = ex(s, env)
        if r is not None:
            return r


def ex_StaticBlock(n, env):
    return ex_BlockStatement(n, env)


def ex_ExpressionStatement(n, env):
    ev(n.expression, env)


def ex_EmptyStatement(n, env):
    pass


def ex_FunctionDeclaration(n, env):
    pass


def ex_ClassDeclaration(n, env):
    env.vars[n.id.name] = ev_ClassDeclaration(n, env)


def ex_VariableDeclaration(n, env):
    for d in n.declarations:
        t = d.id
        if d.init is None:
            if n.kind != "var":
                env.vars[t.name] = UNDEF
            continue
        v = ev(d.init, env)
        if t.type == "Identifier":
            if type(v) is JSFunc and v.name == "" and d.init.anon:
                v.name = t.name
            if n.kind == "var":
                env.set(t.name, v)
            else:
                env.vars[t.name] = v
        else:
            bind(t, v, env, n.kind)


def ex_ReturnStatement(n, env):
    return (RETURN, UNDEF if n.argument is None else ev(n.argument, env))


def ex_IfStatement(n, env):
    if truthy(ev(n.test, env)):
        return ex(n.consequent, env)
    if n.alternate is not None:
        return ex(n.alternate, env)


def ex_ThrowStatement(n, env):
    raise JSThrow(ev(n.argument, env))


def ex_BreakStatement(n, env):
    return (BREAK, n.label.name if n.label else None)


def ex_ContinueStatement(n, env):
    return (CONTINUE, n.label.name if n.label else None)


def ex_LabeledStatement(n, env):
    r = ex_loop(n.body, env, n.label.name)
    if r is not None and r[0] is BREAK and r[1] == n.label.name:
        return None
    return r


def ex_loop(n, env, label):
    t = n.type
    if t == "ForStatement":
        return loop_for(n, env, label)
    if t == "ForOfStatement" or t == "ForInStatement":
        return loop_of(n, env, label)
    if t == "WhileStatement":
        return loop_while(n, env, label)
    if t == "DoWhileStatement":
        return loop_do(n, env, label)
    return ex(n, env)


def ex_ForStatement(n, env):
    return loop_for(n, env, None)


def ex_ForOfStatement(n, env):
    return loop_of(n, env, None)


def ex_ForInStatement(n, env):
    return loop_of(n, env, None)


def ex_WhileStatement(n, env):
    return loop_while(n, env, None)


def ex_DoWhileStatement(n, env):
    return loop_do(n, env, None)


def loop_for(n, env, label):
    per = False
    if n.init is not None:
        if n.init.type == "VariableDeclaration":
            per = n.init.kind == "let"
            if n.init.kind != "var":
                env = Env(env)
            ex(n.init, env)
        else:
            ev(n.init, env)
    while True:
        tick()
        if n.test is not None and not truthy(ev(n.test, env)):
            return None
        r = ex(n.body, env)
        if r is not None:
            if r[0] is BREAK and (r[1] is None or r[1] == label):
                return None
            if not (r[0] is CONTINUE and (r[1] is None or r[1] == label)):
                return r
        if per:
            e2 = Env(env.parent)
            e2.vars = dict(env.vars)
            env = e2
        if n.update is not None:
            ev(n.update, env)


def loop_of(n, env, label):
    it = ev(n.right, env)
    if n.type == "ForInStatement":
        seq = for_in_keys(it)
    elif n.await_ and isinstance(it, JSObj) and callable_(get(it, "@@asyncIterator")):
        return loop_async(n, env, label, call(get(it, "@@asyncIterator"), it, []))
    else:
        seq = iterate(it)
    for v in seq:
        tick()
        e2 = env
        l = n.left
        if n.await_:
            v = AWAIT(v)
        if l.type == "VariableDeclaration":
            t = l.declarations[0].id
            if l.kind != "var":
                e2 = Env(env)
                if t.type == "Identifier":
                    e2.vars[t.name] = v
                else:
                    bind(t, v, e2, l.kind)
            else:
                bind(t, v, env, "var")
        else:
            bind(l, v, env, "assign")
        try:
            r = ex(n.body, e2)
        except (JSThrow, GenReturn) as e:
            try:
                close_iter(seq)
            except JSThrow:
                if type(e) is GenReturn:
                    raise
            raise e
        if r is not None:
            if r[0] is BREAK and (r[1] is None or r[1] == label):
                close_iter(seq)
                return None
            if not (r[0] is CONTINUE and (r[1] is None or r[1] == label)):
                close_iter(seq)
                return r


def loop_async(n, env, label, it):
    nx = get(it, "next")
    while True:
        tick()
        x = AWAIT(call(nx, it, []))
        if truthy(get(x, "done")):
            return None
        v = get(x, "value")
        e2 = env
        l = n.left
        if l.type == "VariableDeclaration":
            if l.kind != "var":
                e2 = Env(env)
            bind(l.declarations[0].id, v, e2, l.kind)
        else:
            bind(l, v, env, "assign")
        exc = None
        try:
            r = ex(n.body, e2)
        except (JSThrow, GenReturn) as e:
            r, exc = None, e
        if exc is None:
            if r is None or (r[0] is CONTINUE and (r[1] is None or r[1] == label)):
                continue
        f = get(it, "return")
        if callable_(f):
            try:
                AWAIT(call(f, it, []))
            except JSThrow:
                if exc is None or type(exc) is GenReturn:
                    raise
        if exc is not None:
            raise exc
        return None if r[0] is BREAK and (r[1] is None or r[1] == label) else r


def loop_while(n, env, label):
    while truthy(ev(n.test, env)):
        tick()
        r = ex(n.body, env)
        if r is not None:
            if r[0] is BREAK and (r[1] is None or r[1] == label):
                return None
            if not (r[0] is CONTINUE and (r[1] is None or r[1] == label)):
                return r


def loop_do(n, env, label):
    while True:
        tick()
        r = ex(n.body, env)
        if r is not None:
            if r[0] is BREAK and (r[1] is None or r[1] == label):
                return None
            if not (r[0] is CONTINUE and (r[1] is None or r[1] == label)):
                return r
        if not truthy(ev(n.test, env)):
            return None


def ex_TryStatement(n, env):
    r = None
    exc = None
    try:
        r = ex(n.block, env)
    except JSThrow as e:
        exc = e
    except GenReturn as e:
        exc = e
    except RecursionError:
        exc = JSThrow(make_error("RangeError", "Maximum call stack size exceeded"))
    if type(exc) is JSThrow and n.handler is not None:
        h = n.handler
        e2 = Env(env)
        v = exc.value
        exc2, exc = exc, None
        try:
            if h.param is not None:
                bind(h.param, v, e2, "let")
            r = ex(h.body, e2)
        except (JSThrow, GenReturn) as e:
            exc = e
    if n.finalizer is not None:
        r2 = ex(n.finalizer, env)
        if r2 is not None:
            return r2
    if exc is not None:
        raise exc
    return r


def ex_SwitchStatement(n, env):
    v = ev(n.discriminant, env)
    env = Env(env)
    for c in n.cases:
        for s in c.consequent:
            hoist_fn(s, env)
    on = False
    start = None
    for i, c in enumerate(n.cases):
        if c.test is not None and truthy(strict_eq(v, ev(c.test, env))):
            start = i
            break
    if start is None:
        for i, c in enumerate(n.cases):
            if c.test is None:
                start = i
    if start is None:
        return None
    for c in n.cases[start:]:
        for s in c.consequent:
            r = ex(s, env)
            if r is not None:
                if r[0] is BREAK and r[1] is None:
                    return None
                return r


# ------------------------------------------------------------------ patterns

def bind(t, v, env, kind):
    ty = t.type
    if ty == "Identifier":
        if kind == "var" or kind == "assign":
            env.set(t.name, v)
        else:
            env.vars[t.name] = v
    elif ty == "AssignmentPattern":
        if v is UNDEF:
            v = ev(t.right, env)
            if type(v) is JSFunc and v.name == "" and t.left.type == "Identifier":
                v.name = t.left.name
        bind(t.left, v, env, kind)
    elif ty == "ArrayPattern":
        it = iter(iterate(v))
        for el in t.elements:
            if el is None:
                next(it, UNDEF)
            elif el.type == "RestElement":
                bind(el.argument, JSArr(list(it)), env, kind)
            else:
                bind(el, next(it, UNDEF), env, kind)
        close_iter(it)
    elif ty == "ObjectPattern":
        if v is UNDEF or v is None:
            throw("TypeError", "Cannot destructure '%s' as it is %s." % (show(v), show(v)))
        seen = []
        for p in t.properties:
            if p.type == "RestElement":
                bind(p.argument, rest_object(v, seen), env, kind)
            else:
                k = ev(p.key, env) if p.computed else key_name(p.key)
                k = to_key(k)
                seen.append(k)
                bind(p.value, get(v, k), env, kind)
    elif ty == "MemberExpression":
        o = ev(t.object, env)
        k = to_key(ev(t.property, env)) if t.computed else key_name(t.property)
        put(o, k, v)
    else:
        raise Unsupported("pattern " + ty)


# ------------------------------------------------------------------ expressions

def ev_Literal(n, env):
    if n.regex is not None:
        return JSRegExp(n.regex.pattern, n.regex.flags)
    return n.value


def ev_Identifier(n, env):
    return env.get(n.name)


def ev_ThisExpression(n, env):
    return env.get("this")


def ev_TemplateLiteral(n, env):
    out = n.quasis[0].cooked
    for i, e in enumerate(n.expressions):
        v = ev(e, env)
        out = concat(out, to_string(v))
        q = n.quasis[i + 1].cooked
        if q:
            out = concat(out, q)
    return out


def ev_TaggedTemplateExpression(n, env):
    f = ev(n.tag, env)
    strs = JSArr([q.cooked for q in n.quasi.quasis])
    strs.props["raw"] = JSArr([q.raw for q in n.quasi.quasis])
    args = [strs]
    for e in n.quasi.expressions:
        args.append(ev(e, env))
    return call(f, UNDEF, args)


def ev_ArrayExpression(n, env):
    out = []
    for e in n.elements:
        if e is None:
            out.append(UNDEF)
        elif e.type == "SpreadElement":
            out.extend(iterate(ev(e.argument, env)))
        else:
            out.append(ev(e, env))
    return JSArr(out)


def ev_ObjectExpression(n, env):
    o = JSObj()
    for p in n.properties:
        if p.type == "SpreadElement":
            copy_props(o, ev(p.argument, env))
            continue
        k = to_key(ev(p.key, env)) if p.computed else key_name(p.key)
        if p.kind == "init":
            v = ev(p.value, env)
            if type(v) is JSFunc:
                if v.name == "" and p.value.anon:
                    v.name = k
                if p.method:
                    v.home = o
            if k == "__proto__" and not p.computed and not p.shorthand:
                o.proto = v if isinstance(v, JSObj) else None
            else:
                o.define(k, v)
        else:
            f = ev(p.value, env)
            f.home = o
            old = o.props.get(k)
            acc = old if type(old) is Accessor else Accessor()
            setattr(acc, p.kind, f)
            o.props[k] = acc
    return o


def ev_FunctionExpression(n, env):
    if n.id is not None:
        env = Env(env)
        f = JSFunc(n, env)
        env.vars[n.id.name] = f
        return f
    return JSFunc(n, env)


def ev_ArrowFunctionExpression(n, env):
    return JSFunc(n, env)


def ev_ClassExpression(n, env):
    return ev_ClassDeclaration(n, env)


def ev_ClassDeclaration(n, env):
    env = Env(env)
    sup = ev(n.superClass, env) if n.superClass is not None else UNDEF
    c = make_class(n, env, sup)
    if n.id is not None:
        env.vars[n.id.name] = c
    proto = c.props["prototype"]
    for m in n.body.body:
        if m.type == "StaticBlock":
            continue
        tgt = c if m.static else proto
        k = to_key(ev(m.key, env)) if m.computed else key_name(m.key)
        if m.type == "MethodDefinition":
            if m.kind == "constructor":
                continue
            f = JSFunc(m.value, env)
            f.name = k
            f.home = tgt
            if m.kind == "method":
                tgt.define_hidden(k, f)
            else:
                old = tgt.props.get(k)
                acc = old if type(old) is Accessor else Accessor()
                setattr(acc, m.kind, f)
                tgt.props[k] = acc
                tgt.hide(k)
        elif m.type == "PropertyDefinition" and not m.static:
            c.fields.append((k, m.value))
    e2 = Env(env)
    e2.vars["this"] = c
    e2.vars["%home"] = c
    for m in n.body.body:
        if m.type == "StaticBlock":
            ex_BlockStatement(m, e2)
        elif m.type == "PropertyDefinition" and m.static:
            k = to_key(ev(m.key, env)) if m.computed else key_name(m.key)
            v = ev(m.value, e2) if m.value is not None else UNDEF
            if type(v) is JSFunc and v.name == "":
                v.name = k
            c.define(k, v)
    return c


def ev_SequenceExpression(n, env):
    v = UNDEF
    for e in n.expressions:
        v = ev(e, env)
    return v


def ev_UnaryExpression(n, env):
    op = n.operator
    if op == "typeof":
        if n.argument.type == "Identifier" and not env.has(n.argument.name):
            return "undefined"
        return typeof(ev(n.argument, env))
    if op == "delete":
        a = n.argument
        if a.type == "MemberExpression":
            o = ev(a.object, env)
            k = to_key(ev(a.property, env)) if a.computed else key_name(a.property)
            return delete(o, k)
        return True
    v = ev(n.argument, env)
    if op == "!":
        return js_not(v)
    if op == "-":
        return -to_number(v)
    if op == "+":
        return to_number(v)
    if op == "~":
        return ~to_int32(v)
    if op == "void":
        return UNDEF
    raise Unsupported("unary " + op)


def ev_UpdateExpression(n, env):
    a = n.argument
    d = 1 if n.operator == "++" else -1
    if a.type == "Identifier":
        v = to_number(env.get(a.name))
        env.set(a.name, v + d)
    else:
        o = ev(a.object, env)
        k = to_key(ev(a.property, env)) if a.computed else key_name(a.property)
        v = to_number(get(o, k))
        put(o, k, v + d)
    return v + d if n.prefix else v


def ev_BinaryExpression(n, env):
    if n.left.type == "PrivateIdentifier":
        return has_prop(ev(n.right, env), "#" + n.left.name)
    a = ev(n.left, env)
    b = ev(n.right, env)
    return binop(n.operator, a, b)


def ev_LogicalExpression(n, env):
    a = ev(n.left, env)
    op = n.operator
    if op == "&&":
        return ev(n.right, env) if truthy(a) else a
    if op == "||":
        return a if truthy(a) else ev(n.right, env)
    return ev(n.right, env) if a is UNDEF or a is None else a


def ev_ConditionalExpression(n, env):
    return ev(n.consequent, env) if truthy(ev(n.test, env)) else ev(n.alternate, env)


def ev_AssignmentExpression(n, env):
    op = n.operator
    t = n.left
    if op == "=":
        if t.type == "Identifier":
            v = ev(n.right, env)
            if type(v) is JSFunc and v.name == "" and n.right.anon:
                v.name = t.name
            env.set(t.name, v)
            return v
        if t.type == "MemberExpression":
            o = ev_super_obj(t.object, env)
            k = to_key(ev(t.property, env)) if t.computed else key_name(t.property)
            v = ev(n.right, env)
            put(o, k, v)
            return v
        v = ev(n.right, env)
        bind(t, v, env, "assign")
        return v
    if t.type == "Identifier":
        old = env.get(t.name)
        o = None
    else:
        o = ev_super_obj(t.object, env)
        k = to_key(ev(t.property, env)) if t.computed else key_name(t.property)
        old = get(o, k)
    if op == "&&=":
        if not truthy(old):
            return old
        v = ev(n.right, env)
    elif op == "||=":
        if truthy(old):
            return old
        v = ev(n.right, env)
    elif op == "??=":
        if not (old is UNDEF or old is None):
            return old
        v = ev(n.right, env)
    else:
        v = binop(op[:-1], old, ev(n.right, env))
    if o is None:
        env.set(t.name, v)
    else:
        put(o, k, v)
    return v


def ev_super_obj(n, env):
    if n.type == "Super":
        return env.get("this")
    return ev(n, env)


def ev_MemberExpression(n, env):
    if n.object.type == "Super":
        k = to_key(ev(n.property, env)) if n.computed else key_name(n.property)
        return super_get(env, k)
    o = ev(n.object, env)
    if n.optional and (o is UNDEF or o is None):
        raise ShortCircuit()
    if not n.computed:
        return get(o, key_name(n.property))
    return get(o, to_key(ev(n.property, env)))


def ev_ChainExpression(n, env):
    try:
        return ev(n.expression, env)
    except ShortCircuit:
        return UNDEF


def ev_args(args, env):
    out = []
    for a in args:
        if a.type == "SpreadElement":
            out.extend(iterate(ev(a.argument, env)))
        else:
            out.append(ev(a, env))
    return out


def ev_CallExpression(n, env):
    c = n.callee
    if c.type == "Super":
        args = ev_args(n.arguments, env)
        return super_call(env, args)
    if c.type == "MemberExpression":
        if c.object.type == "Super":
            k = to_key(ev(c.property, env)) if c.computed else key_name(c.property)
            f = super_get(env, k)
            o = env.get("this")
        else:
            o = ev(c.object, env)
            if c.optional and (o is UNDEF or o is None):
                raise ShortCircuit()
            k = to_key(ev(c.property, env)) if c.computed else key_name(c.property)
            f = get(o, k)
        if n.optional and (f is UNDEF or f is None):
            raise ShortCircuit()
        args = ev_args(n.arguments, env)
        if not callable_(f):
            throw("TypeError", "%s is not a function" % src_of(c))
        return call(f, o, args)
    f = ev(c, env)
    if n.optional and (f is UNDEF or f is None):
        raise ShortCircuit()
    args = ev_args(n.arguments, env)
    if not callable_(f):
        throw("TypeError", "%s is not a function" % src_of(c))
    return call(f, UNDEF, args)


def ev_NewExpression(n, env):
    f = ev(n.callee, env)
    args = ev_args(n.arguments, env)
    return construct(f, args)


def ev_AwaitExpression(n, env):
    return AWAIT(ev(n.argument, env))


def ev_YieldExpression(n, env):
    isasync = env.get("%func").node.async_
    v = ev(n.argument, env) if n.argument is not None else UNDEF
    if not n.delegate:
        if isasync:
            v = AWAIT(v)
        return YIELD(v)
    f = get(v, "@@asyncIterator") if isasync else UNDEF
    it = call(f, v, []) if callable_(f) else call(get(v, "@@iterator"), v, [])
    sent = UNDEF
    nx = get(it, "next")
    how = None
    while True:
        tick()
        if how is None:
            r = call(nx, it, [sent])
        else:
            m = get(it, how[0])
            if m is UNDEF or m is None:
                if how[0] == "return":
                    raise GenReturn(how[1])
                throw("TypeError", "The iterator does not provide a 'throw' method")
            r = call(m, it, [how[1]])
        if isasync:
            r = AWAIT(r)
        if truthy(get(r, "done")):
            if how is not None and how[0] == "return":
                raise GenReturn(get(r, "value"))
            return get(r, "value")
        how = None
        try:
            sent = YIELD(get(r, "value"))
        except JSThrow as e:
            how = ("throw", e.value)
        except GenReturn as e:
            how = ("return", e.value)


def ev_MetaProperty(n, env):
    return env.get("%newtarget")
