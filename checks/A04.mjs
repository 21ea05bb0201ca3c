// A04: revocation removes key files first and re-keys; rotation loses nothing and wraps for nobody else.
import { keepField } from '../lib/keyfile.mjs'
import { ts, strip, stripAwait, storeOp, publicApi, enclosingFn, Interp, origins, mkCtx, chain, walkNodes, walkOwn, addMust, addMay, clearFacts, K } from '../lib/common.mjs'
import { subtle, encodingThrough } from '../lib/crypto.mjs'
import { knownPrefix } from './A01.mjs'

const TARGETS = ['admin', 'operator', 'viewer', 'client']
export default async function (w, rep) {
  rep.rule('remove', 'every successful revocation deletes the key file of the named user, and no new key is generated before that')
  rep.rule('cascade', 'revoking an admin also deletes the key files of admins appointed by them, transitively, unless only a warning was asked for')
  rep.rule('origin', 'rewriting a key file keeps the record of who granted it, so a later cascade still reaches it')
  rep.rule('rekey', 'the re-keyed collections are those in the key files of the named and the cascaded users, unless rotation was declined')
  rep.rule('fresh', 'rotation stores records encrypted under newly generated keys only')
  rep.rule('every', 'rotation re-encrypts every encrypted record it reads')
  rep.rule('keep', 'the caller\'s key file is stored with the new keys before rotation completes')
  rep.rule('strip', 'rotation removes the rotated keys from the key file of every other user, whatever their role')
  rep.rule('own', 'revocation and rotation wrap keys only under the caller\'s own key-encryption key')
  rep.rule('hold', 'a collection whose key the caller does not hold is neither re-keyed nor removed from anybody')
  rep.rule('cover', 'everything stored under a rotated key is re-encrypted by the rotation')
  const api = publicApi(w)
  const byName = n => [...api.fns].filter(([f, nm]) => nm === n && w.pkgOf(f) === 'hub').map(([f]) => f)
  const isGen = n => ts.isCallExpression(n) && subtle(w, n) === 'generateKey'
  const isDel = n => ts.isDeleteExpression(n)
  const mapOp = n => { // operation on an in-memory key map
    if (!ts.isCallExpression(n)) return null
    const c = strip(n.expression)
    if (!ts.isPropertyAccessExpression(c)) return null
    const t = w.checker.typeToString(w.checker.getTypeAtLocation(c.expression))
    return /^(Readonly)?Map<string, CryptoKey>$/.test(t) ? c.name.text : null
  }
  const inKeyring = (n, ctx, I) => { const d = I.deref(strip(n.expression).expression, ctx); return d.path[d.path.length - 1] === 'deks' || ts.isPropertyAccessExpression(d.expr) && d.expr.name.text === 'deks' }
  const isEvent = n => ts.isThrowStatement(n) || isGen(n) || isDel(n) || mapOp(n) !== null || ts.isCallExpression(n) && (!!storeOp(w, n) || ['wrapKey', 'encrypt'].includes(subtle(w, n)))
  const isKr = (c, ctx, I) => I.constEval(c.arguments[1], ctx)?.vals.every(v => v === '_keyring') ?? false
  const yieldsKeyring = c => ts.isCallExpression(c) && /^(Promise<)?UnlockedKeyring>?$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(c)))
  let rel = null
  const prop = (e, name, type) => {
    if (ts.isPropertyAccessExpression(e) && e.name.text === name) return type.test(w.typeName(e.expression))
    if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && ts.isBindingElement(d) && ts.isObjectBindingPattern(d.parent) && (d.propertyName ?? d.name).text === name) { const t = w.checker.getTypeAtLocation(d.parent); return type.test(t.aliasSymbol?.name ?? t.symbol?.name ?? '') } }
    return false
  }
  const explore = (fn, { target, cascade, rotate, held, present, hooks = {} }) => {
    const ev = [], reached = new Set(), entered = new Set()
    const add = (kind, c, st, ctx) => ev.push({ kind, c, ctx, st })
    const I = new Interp(w, {
      isEvent,
      assume(e, ctx, I) {
        if (prop(e, 'role', /^UnlockedKeyring$/)) return { vals: ['owner'] }
        if (target && prop(e, 'role', /^KeyringFile$/)) return { vals: [target] }
        if (cascade !== undefined && prop(e, 'cascade', /^RevokeOptions$/)) return { vals: [cascade === 'default' ? undefined : cascade] }
        if (rotate !== undefined && prop(e, 'rotateKeys', /^RevokeOptions$/)) return { vals: [rotate === 'default' ? undefined : rotate] }
        if (ts.isCallExpression(e) && held !== undefined) {
          const m = mapOp(e)
          if (m === 'has' && inKeyring(e, ctx, I)) return { vals: [held] }
          if (m === 'get' && !held && inKeyring(e, ctx, I)) return { vals: [undefined] }
          if (m === 'get' && held && inKeyring(e, ctx, I)) return { vals: ['key'] }
          if (m === 'get' && held) return { vals: ['key'] }
        }
        if (present) {
          if (ts.isCallExpression(e) && storeOp(w, e) === 'get') return { vals: ['envelope'] }
          if (ts.isAwaitExpression(e) && storeOp(w, strip(e.expression)) === 'get') return { vals: ['envelope'] }
          if (prop(e, '_iv', /^EncryptedEnvelope$/)) return { vals: ['iv'] }
        }
        return undefined
      },
      onExpr(e, st, ctx) {
        entered.add(ctx.fn)
        const x = strip(e)
        if (ts.isCallExpression(x)) reached.add(x)
        if (isDel(x)) add('strip', x, st, ctx)
      },
      onCall(c, st, ctx, I) {
        entered.add(ctx.fn)
        if (ts.isCallExpression(c)) reached.add(c)
        if (yieldsKeyring(c)) return { st, opaque: true, throwSt: st }
        if (isGen(c)) { add('gen', c, st, ctx); return { st: addMay(st, 'generated'), opaque: true, throwSt: st } }
        const m = mapOp(c)
        if (m === 'set' && inKeyring(c, ctx, I)) { add('keyset', c, st, ctx); return { st: addMay(st, 'newkeys'), opaque: true } }
        if (m) return undefined
        if (subtle(w, c) === 'wrapKey') { add('wrap', c, st, ctx); return { st, opaque: true, throwSt: st } }
        const op = storeOp(w, c)
        if (!op) return undefined
        const kr = isKr(c, ctx, I)
        if (op === 'delete' && kr) {
          add('delete', c, st, ctx)
          return { st: fromNamed(c.arguments[2], ctx) ? addMust(st, 'deleted') : st, opaque: true, throwSt: st }
        }
        if (op === 'put' && kr) { const own = ownId(c.arguments[2], ctx); add(own ? 'putown' : 'putother', c, st, ctx); return { st: own ? addMust(st, 'kept') : st, opaque: true, throwSt: st } }
        if (op === 'put') { add('put', c, st, ctx); return { st: clearFacts(addMay(st, 'rewrote'), 'open'), opaque: true, throwSt: st } }
        if (op === 'get' && !kr) { add('get', c, st, ctx); return { st: addMay(st, 'open'), opaque: true, throwSt: st } }
        return { st, opaque: true, throwSt: st }
      },
    }, { maxDepth: 8 })
    I.relevant = rel; I._computeRelevant(); rel = I.relevant
    const out = I.run(fn)
    const prune = n => ts.isCallExpression(n) && entered.has(enclosingFn(n)) && !reached.has(n)
    return { ev, out, I, prune, of: k => ev.filter(x => x.kind === k) }
  }
  /** The id is (or may be) the user named in the options. */
  const isNamed = l => { const e = strip(l.expr); return l.path.length === 1 && l.path[0] === 'userId' && w.typeName(e) === 'RevokeOptions' || ts.isPropertyAccessExpression(e) && e.name.text === 'userId' && w.typeName(e.expression) === 'RevokeOptions' }
  const idLeaves = (e, ctx, prune) => origins(w, e, ctx, { prune })
  const fromNamed = (e, ctx) => idLeaves(e, ctx).some(isNamed)
  const isKeyring = e => w.typeName(strip(e)) === 'UnlockedKeyring'
  const ownId = (e, ctx) => origins(w, e, ctx, { stop: isKeyring }).some(l => isKeyring(l.expr) && l.path[0] === 'userId')
  /** Kinds of users whose key files decide the value: the named one, others. */
  const owners = (e, ctx, prune) => {
    const kinds = new Set()
    const seen = new Set()
    const go = (x, c, d) => {
      for (const l of origins(w, x, c, { prune, stop: n => ts.isCallExpression(n) && storeOp(w, n) === 'get' })) {
        const n = strip(l.expr)
        if (seen.has(n) && d) { if (!ts.isCallExpression(n)) continue }
        seen.add(n)
        if (ts.isCallExpression(n) && storeOp(w, n) === 'get') { for (const k of idLeaves(n.arguments[2], l.ctx, prune)) kinds.add(isNamed(k) ? 'named' : 'cascaded'); continue }
        if (d > 4) continue
        // key lists computed from a key file: follow what the computation is applied to
        walkNodes(n, y => { if (ts.isPropertyAccessExpression(y) && y.name.text === 'deks' && !ts.isCallExpression(y.parent) || ts.isPropertyAccessExpression(y) && y.name.text === 'deks') go(y.expression, l.ctx, d + 1); else if (ts.isCallExpression(y) && /^JSON\.parse$/.test(y.expression.getText())) go(y.arguments[0], l.ctx, d + 1) })
        if (l.path.length && ts.isCallExpression(n) && n.arguments.length) go(n.arguments[0], l.ctx, d + 1)
        else if (ts.isCallExpression(n)) for (const a of n.arguments) if (ts.isIdentifier(strip(a)) || ts.isPropertyAccessExpression(strip(a))) go(a, l.ctx, d + 1)
      }
    }
    go(e, ctx, 0)
    return kinds
  }
  const at = e => ({ node: e.c, fn: enclosingFn(e.c), path: chain(w, e.ctx) })

  for (const fn of byName('Noydb.revoke')) {
    for (const target of TARGETS) for (const rotate of ['default', false]) {
      const label = `revoke ${target}${rotate === false ? ' without rotation' : ''}`
      const r = explore(fn, { target, rotate, held: true })
      rep.ob('remove', label, !!r.out.normal?.must.has('deleted'), { node: fn, fn, msg: `revoking a ${target} can complete without deleting their key file` })
      const early = r.of('gen').find(e => !e.st.must.has('deleted')) ?? r.of('delete').find(e => e.st.may?.has('generated') || e.st.may?.has('rewrote'))
      rep.ob('remove', `${label}: order`, !early, { ...(early ? at(early) : { node: fn, fn }), msg: `new keys are generated while the key file of the revoked ${target} still exists` })
      const puts = r.of('put').filter(p => idLeaves(p.c.arguments[1], p.ctx, r.prune).length)
      if (rotate === false) rep.ob('rekey', label, !puts.length && !r.of('gen').length, { node: fn, fn, msg: 'keys are rotated although the caller declined rotation' })
      else {
        const kinds = new Set(puts.flatMap(p => [...owners(p.c.arguments[1], p.ctx, r.prune)]))
        rep.ob('rekey', label, kinds.has('named'), { node: fn, fn, msg: puts.length ? `the collections re-keyed when a ${target} is revoked are not taken from their key file` : `revoking a ${target} re-keys nothing` })
      }
    }
    for (const cascade of ['default', 'strict', 'warn']) {
      const r = explore(fn, { target: 'admin', cascade, rotate: 'default', held: true })
      const ids = r.of('delete').flatMap(e => idLeaves(e.c.arguments[2], e.ctx, r.prune))
      const more = ids.some(l => !isNamed(l) && l.why !== 'undefined')
      const want = cascade !== 'warn'
      rep.ob('cascade', `${cascade}: key files`, more === want, { node: fn, fn, msg: want ? 'admins appointed by a revoked admin keep their key files' : 'cascade: warn removes the key files of other admins' })
      const kinds = new Set(r.of('put').flatMap(p => [...owners(p.c.arguments[1], p.ctx, r.prune)]))
      if (want) rep.ob('rekey', `cascade ${cascade}`, kinds.has('cascaded'), { node: fn, fn, msg: 'collections only a cascaded admin could read are not re-keyed' })
      if (want) {
        const walkers = new Set([...reachableFns(fn)].filter(f => mentions(f, 'granted_by')))
        const ok = [...walkers].some(transitive)
        rep.ob('cascade', `${cascade}: transitive`, ok, { node: [...walkers][0] ?? fn, fn, msg: 'only admins appointed directly by the revoked admin are found, not those appointed by them in turn' })
      }
    }
    for (const target of TARGETS) {
      const r = explore(fn, { target, rotate: 'default', held: true })
      wraps(r, `revoke ${target}`, fn)
      rep.ob('keep', `revoke ${target}`, !r.of('put').length || r.of('putown').length > 0, { node: fn, fn, msg: 'the new keys are never stored for the caller' })
    }
  }
  function wraps(r, label, fn) {
    for (const e of r.of('wrap')) {
      const bad = origins(w, e.c.arguments[2], e.ctx, { stop: isKeyring }).filter(l => !(isKeyring(l.expr) && l.path[0] === 'kek'))
      rep.ob('own', label, !bad.length, { ...at(e), msg: bad.length ? `a key is wrapped under ${w.text(bad[0].expr, 50)}, which is not the caller's own key-encryption key` : '' })
    }
  }
  for (const fn of byName('Noydb.rotate')) {
    const r = explore(fn, { held: true, present: true })
    const puts = r.of('put')
    if (!puts.length) rep.missing('fresh', 'the record write of rotation')
    for (const p of puts) {
      const keys = []
      const data = origins(w, p.c.arguments[3], p.ctx, { path: ['_data'], stop: e => subtle(w, e) === 'encrypt', through: encodingThrough(w) })
      let bad = data.find(l => subtle(w, strip(l.expr)) !== 'encrypt')
      for (const l of data) if (subtle(w, strip(l.expr)) === 'encrypt') for (const k of origins(w, strip(l.expr).arguments[1], l.ctx, { stop: isGen })) { keys.push(k); if (!isGen(strip(k.expr)) && k.why !== 'undefined') bad ??= k }
      rep.ob('fresh', `${w.fnName(enclosingFn(p.c))} put`, !bad && keys.length > 0, { ...at(p), msg: bad ? `the stored body comes from ${w.text(bad.expr, 60)} at ${w.loc(bad.expr)}, not from an encryption under a newly generated key` : 'no key found' })
    }
    const skipped = r.of('get').some(e => e.st.may?.has('open')) || r.out.normal?.may?.has('open')
    rep.ob('every', 'rotate', !skipped, { node: fn, fn, msg: 'an encrypted record that was read can be passed over without being re-encrypted, although its old key is replaced' })
    rep.ob('keep', 'rotate', !!r.out.normal?.must.has('kept'), { node: fn, fn, msg: 'rotation can complete without storing the caller\'s key file' })
    const late = r.of('keyset').length ? null : fn
    rep.ob('keep', 'rotate: new keys', !late, { node: fn, fn, msg: 'the new keys are not added to the caller\'s keys' })
    const after = r.of('keyset').find(e => e.st.must.has('kept'))
    rep.ob('keep', 'rotate: order', !after, { ...(after ? at(after) : { node: fn, fn }), msg: 'the caller\'s key file is stored before the new keys are added to it' })
    wraps(r, 'rotate', fn)
    for (const target of ['owner', ...TARGETS]) {
      const x = explore(fn, { target, held: true, present: true })
      const put = x.of('putother')[0]
      const stripped = x.of('strip').filter(e => fileKeys(e.c, e.ctx)).length > 0 || x.of('putother').some(e => rebuilt(e, x))
      rep.ob('strip', target, !!put && stripped, { node: put?.c ?? fn, fn, msg: put ? `the rotated keys stay in the key file of every other ${target}` : `the key file of another ${target} is not updated by rotation` })
    }
    const n = explore(fn, { held: false, present: true })
    for (const kind of ['gen', 'keyset', 'strip', 'put']) {
      const x = n.of(kind).find(e => live(e, n))
      rep.ob('hold', `rotate: ${kind}`, !x, { ...(x ? at(x) : { node: fn, fn }), msg: { gen: 'a new key is generated for a collection whose key the caller does not hold', keyset: 'the caller\'s key map gets a new key for a collection whose records were not re-encrypted', strip: 'other users lose the key of a collection that was not re-encrypted', put: 'records are rewritten without the old key' }[kind] })
    }
  }
  /** The construct works on something when nothing is held. */
  function live(e, r) {
    if (e.kind === 'put' || e.kind === 'gen') return true
    const key = e.kind === 'keyset' ? e.c.arguments[0] : e.kind === 'strip' ? (ts.isElementAccessExpression(strip(e.c.expression)) ? strip(e.c.expression).argumentExpression : null) : null
    if (!key) return true
    for (let f = enclosingFn(e.c); f && ts.isCallExpression(f.parent); f = enclosingFn(f)) { const c = strip(f.parent.expression); if (ts.isPropertyAccessExpression(c) && emptyMap(strip(c.expression), r)) return false }
    if (e.kind === 'strip' && !fileKeys(e.c, e.ctx)) return false
    return origins(w, key, e.ctx, { prune: r.prune, stop: n => emptyMap(n, r) }).some(l => !emptyMap(strip(l.expr), r))
  }
  /** A fresh map none of whose additions can execute. */
  function emptyMap(n, r) {
    const host = ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && /^(keys|entries|values)$/.test(strip(n.expression).name.text) ? strip(strip(n.expression).expression) : n
    const id = ts.isIdentifier(host) ? host : null
    const s = id ? w.sym(id) : (ts.isNewExpression(host) || ts.isArrayLiteralExpression(host)) && ts.isVariableDeclaration(host.parent) ? w.sym(host.parent.name) : null
    const d = s?.valueDeclaration
    if (!d || !ts.isVariableDeclaration(d) || !d.initializer) return false
    const i = strip(d.initializer)
    if (!(ts.isNewExpression(i) && !(i.arguments?.length) || ts.isArrayLiteralExpression(i) && !i.elements.length)) return false
    return w.mutationsOf(s).every(m => r.prune(m.call))
  }
  function fileKeys(del, ctx) {
    const x = strip(del.expression)
    if (!ts.isElementAccessExpression(x)) return false
    return /Record<string, string>|\{ \[x: string\]: string; \}/.test(w.checker.typeToString(w.checker.getTypeAtLocation(x.expression)))
  }
  /** deks of the written file is computed (filtered) rather than copied. */
  function rebuilt(e) {
    let hit = false
    for (let c = e.ctx; c; c = c.parent) if (c.fn) walkOwn(c.fn, n => { if (ts.isCallExpression(n) && /\.(filter|reduce|fromEntries)$/.test(n.expression.getText()) && /deks/.test(n.getText())) hit = true })
    return hit
  }
  function reachableFns(fn) { const out = new Set(), q = [fn]; while (q.length && out.size < 200) { const f = q.pop(); if (out.has(f)) continue; out.add(f); walkNodes(f, n => { if (ts.isCallExpression(n) && !storeOp(w, n)) for (const t of w.resolveCall(n, mkCtx(f))) if (w.pkgOf(t.fn) === 'hub') q.push(t.fn) }) } return out }
  function mentions(f, name) { let hit = false; walkNodes(f, n => { if ((ts.isPropertyAccessExpression(n) && n.name.text === name && /^KeyringFile$/.test(w.typeName(n.expression))) || ts.isBindingElement(n) && (n.propertyName ?? n.name).getText() === name) hit = true }); return hit }
  /** A work list fed from its own elements, or recursion. */
  function transitive(f) {
    let ok = false
    const self = new Set([f]); walkNodes(f, n => { if (ts.isFunctionDeclaration(n) || ts.isArrowFunction(n) || ts.isFunctionExpression(n)) self.add(n) })
    walkNodes(f, n => {
      if (ts.isCallExpression(n)) for (const t of w.resolveCall(n, mkCtx(f))) { let p = n; while (p) { if (p === t.fn && self.has(p)) ok = true; p = p.parent } }
      if (ok) return
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && /^(push|add|unshift)$/.test(strip(n.expression).name.text)) {
        const s = w.sym(strip(strip(n.expression).expression))
        if (s && n.arguments.some(a => depends(strip(ts.isSpreadElement(a) ? a.expression : a), s, new Set()))) { let p = n; while (p && p !== f) { if (ts.isIterationStatement(p, false)) ok = true; p = p.parent } }
      }
      // repeated extension of one list: xs = [...xs, ...more(xs)]
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isIdentifier(strip(n.left))) { const s = w.sym(strip(n.left)); if (s && !ts.isArrayLiteralExpression(strip(n.right)) && depends(strip(n.right), s, new Set())) { let p = n; while (p && p !== f) { if (ts.isIterationStatement(p, false)) ok = true; p = p.parent } } }
    })
    return ok
  }
  function depends(e, target, seen) {
    let hit = false
    walkNodes(e, n => {
      if (hit || !ts.isIdentifier(n)) return
      const s = w.sym(n)
      if (!s || seen.has(s)) return
      if (s === target) { hit = true; return }
      seen.add(s)
      const d = s.valueDeclaration
      if (!d) return
      if (ts.isVariableDeclaration(d)) {
        if (d.initializer && depends(d.initializer, target, seen)) hit = true
        else if (ts.isForOfStatement(d.parent.parent) && depends(d.parent.parent.expression, target, seen)) hit = true
        for (const a of w.assignmentsOf(s)) if (!hit && depends(a.value, target, seen)) hit = true
      } else if (ts.isBindingElement(d)) { let p = d; while (p && !ts.isVariableDeclaration(p)) p = p.parent; if (p?.initializer && depends(p.initializer, target, seen)) hit = true; else if (p && ts.isForOfStatement(p.parent.parent) && depends(p.parent.parent.expression, target, seen)) hit = true }
      else if (ts.isParameter(d) && d.parent && ts.isCallExpression(d.parent.parent)) { const c = strip(d.parent.parent.expression); if (ts.isPropertyAccessExpression(c) && depends(c.expression, target, seen)) hit = true }
    })
    return hit
  }
  // what is stored under which key
  const I = new Interp(w, { isEvent: () => false })
  const lookup = e => ts.isCallExpression(e) && e.arguments.length >= 1 && /CryptoKey/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e))) && !subtle(w, e) && /^(string|"[^"]*")$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e.arguments[0])))
  const rot = byName('Noydb.rotate')[0]
  const covered = rot ? explore(rot, { held: true, present: true }).of('put').map(p => ({ p, pre: knownPrefix(w, I, p.c.arguments[1], p.ctx) })) : []
  const done = new Set()
  let made
  for (const c of w.calls) {
    if (storeOp(w, c) !== 'put' || w.pkgOf(c) !== 'hub' || c.arguments.length < 4) continue
    const fn = enclosingFn(c), ctx = mkCtx(fn)
    if (!used(fn)) continue
    const coll = knownPrefix(w, I, c.arguments[1], ctx)
    for (const l of origins(w, c.arguments[3], ctx, { callers: true, path: ['_data'], stop: e => subtle(w, e) === 'encrypt', through: encodingThrough(w) })) {
      const e = strip(l.expr)
      if (subtle(w, e) !== 'encrypt') continue
      if (enclosingFn(l.chain[0]) !== fn) continue
      for (const k of origins(w, e.arguments[1], l.ctx, { callers: true, stop: lookup })) {
        const x = strip(k.expr)
        if (!lookup(x)) continue
        const key = knownPrefix(w, I, x.arguments[0], k.ctx)
        const kd = I.deref(x.arguments[0], k.ctx)
        let name
        if (coll.startsWith('_')) { if (key === coll || /_delegations|_magic_link/.test(coll)) continue; name = `${coll}* under ${key ? `the ${key} key` : 'the collection key'}` }
        else if (!coll && ts.isCallExpression(kd.expr)) name = 'records under a tier key'
        else continue
        if (done.has(name)) continue
        done.add(name)
        rep.ob('cover', name, covered.some(v => coll.startsWith('_') ? v.pre && coll.startsWith(v.pre) : false), { node: c, fn, msg: `rotating that key does not re-encrypt what ${w.text(c, 60)} stored: it becomes unreadable` })
      }
    }
  }
  /** A function, or a method of a class that is exported or instantiated somewhere. */
  function used(fn) {
    const cls = fn.parent && ts.isClassLike(fn.parent) ? fn.parent : null
    return !cls || api.classes.has(cls) || (made ??= new Set(w.sourceFiles.flatMap(sf => { const o = []; walkNodes(sf, n => { if (ts.isNewExpression(n)) o.push(strip(n.expression).getText()) }); return o }))).has(cls.name?.text)
  }
  rep.count('storage_areas_under_another_key', done.size)
  rep.atLeast('remove', 16); rep.atLeast('cascade', 5); rep.atLeast('rekey', 8); rep.atLeast('fresh', 1); rep.atLeast('own', 2); rep.atLeast('strip', 5)
  keepField(w, rep, 'origin', { file: 'granted_by', ring: /granted/i }, 'a cascading revocation no longer reaches this user')
  rep.atLeast('origin', 3)
  return 'Revocation and rotation are interpreted per role of the removed user, cascade mode and rotation choice with typestate facts (key file deleted, new key generated, record read but not yet rewritten, key file stored); ids, collection names and keys are traced back to the options, key files and key generation; a second pass assumes no key is held.'
}
