// I16: locking or closing discards the keys.
import { ts, strip, stripAwait, storeOp, publicApi, enclosingFn, walkNodes, isFnLike, Interp, addMust, clearFacts, chain, thrownClass, K } from '../lib/common.mjs'
import { subtle } from '../lib/crypto.mjs'
import { clock } from '../lib/clock.mjs'
import { isStandIn, SOME } from '../lib/records.mjs'

export default async function (w, rep) {
  rep.rule('close', 'closing empties every container of keys, keyrings and opened vaults, also when a step of the shutdown fails')
  rep.rule('timer', 'closing stops every timer and listener of the closed object')
  rep.rule('after', 'no operation of a closed instance reaches a decryption or an unlocked key')
  rep.rule('late', 'an unlock that finishes after closing leaves nothing behind')
  rep.rule('revoke', 'revoking or expiring a session removes its key, and the session cannot be resolved any more')
  rep.rule('policy', 'every timeout and lock of a session policy revokes the session and tells the instance, which drops keyring and vault')

  const allClasses = [...w.classes.values()].flat()
  // ── containers of keys ───────────────────────────────────────────────
  const holds = (t, depth = 0, seen = new Set()) => {
    t = w.checker.getNonNullableType(t)
    if (seen.has(t) || depth > 6) return false
    seen.add(t)
    const s = t.symbol ?? t.aliasSymbol
    if (s?.name === 'CryptoKey') return true
    if (t.isUnion?.()) return t.types.some(x => holds(x, depth, seen))
    if (s && /^(Map|Set|Array|ReadonlyArray|ReadonlyMap|WeakMap|Promise)$/.test(s.name)) return w.checker.getTypeArguments(t).some(x => holds(x, depth, seen))
    if (!s || !s.declarations?.some(d => w.pkgOf(d))) return false
    for (const p of t.getProperties()) {
      const d = p.valueDeclaration
      if (d && (ts.isPropertyDeclaration(d) || ts.isPropertySignature(d)) && holds(w.checker.getTypeOfSymbol(p), depth + 1, seen)) return true
    }
    return false
  }
  const isBox = t => /^(Map|Set|Array)$/.test(w.checker.getNonNullableType(t).symbol?.name ?? '')
  const isTimer = d => /setTimeout|setInterval|NodeJS\.Timeout|Timeout/.test(d.type?.getText() ?? '')
  /** Field or module variable an expression names: a stable label. */
  const label = x => { x = strip(x); if (ts.isPropertyAccessExpression(x)) return w.memberName(x); if (ts.isIdentifier(x)) { const d = w.declOf(x); return d && ts.isVariableDeclaration(d) && ts.isSourceFile(d.parent.parent.parent) ? `module ${x.text}` : null } return null }
  const boxes = new Map() // label -> declaration
  const classes = new Map()
  for (const c of allClasses) {
    if (!c.name || !w.pkgOf(c)) continue
    for (const m of c.members) if (ts.isPropertyDeclaration(m) && m.name) {
      const t = w.checker.getTypeAtLocation(m)
      const n = `${c.name.text}.${m.name.getText()}`
      if (isBox(t) && holds(t)) { boxes.set(n, m); if (!classes.has(c)) classes.set(c, { boxes: [], timers: [] }); classes.get(c).boxes.push(n) }
    }
  }
  for (const sf of w.sourceFiles) for (const st of sf.statements) if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) if (ts.isIdentifier(d.name) && w.pkgOf(d)) { const t = w.checker.getTypeAtLocation(d); if (isBox(t) && holds(t)) boxes.set(`module ${d.name.text}`, d) }
  if (![...boxes.keys()].some(b => b.startsWith('Noydb.'))) rep.missing('close', 'containers of keys in Noydb')
  const sessionBox = [...boxes].find(([n, d]) => n.startsWith('module ') && w.pkgOf(d) === 'hub' && /CryptoKey/.test(w.checker.typeToString(w.checker.getTypeAtLocation(d))))?.[0]
  if (!sessionBox) rep.missing('revoke', 'the session key store')

  const enabled = ts_ => { const on = ts_.filter(t => !isStandIn(w, t.fn)); return on.length ? on : ts_ }
  const member = c => { const x = strip(c.expression); return ts.isPropertyAccessExpression(x) ? { on: label(x.expression), name: x.name.text } : null }
  const external = c => { const d = w.checker.getResolvedSignature(c)?.declaration; return !d || !w.pkgOf(d) }
  const isIface = c => { const d = w.checker.getResolvedSignature(c)?.declaration; return !!d && ts.isMethodSignature(d) && !!w.pkgOf(d) && !!d.body === false && ts.isInterfaceDeclaration(d.parent) }
  const run = (fn, o = {}) => {
    const I = new Interp(w, {
      isEvent: n => ts.isThrowStatement(n) || (ts.isCallExpression(n) && (!!subtle(w, n) || isClear(n) || !!o.isEvent?.(n) || /^(clearTimeout|clearInterval|removeEventListener)$/.test((strip(n.expression).name ?? strip(n.expression)).text ?? ''))) || assigns(n),
      targets: enabled,
      assume: o.assume,
      onAtom: o.onAtom,
      onAwait: o.onAwait,
      onThrow: o.onThrow,
      onCall(c, st, ctx, I, targets) {
        const r = o.onCall?.(c, st, ctx, I, targets)
        if (r) return r
        if (!ts.isCallExpression(c)) return undefined
        if (subtle(w, c)) { o.onSubtle?.(c, ctx); return { st, opaque: true, throwSt: st } }
        const m = member(c)
        if (m?.on && boxes.has(m.on)) {
          if (m.name === 'clear') return { st: addMust(st, `cleared ${m.on}`), opaque: true, throwSt: null }
          if (m.name === 'delete') return { st: addMust(st, `deleted ${m.on}`), opaque: true, throwSt: null }
          if (m.name === 'set' || m.name === 'push') { o.onSet?.(c, st, ctx, m.on); return { st, opaque: true, throwSt: null } }
          return { st, opaque: true, throwSt: null }
        }
        const t = strip(c.expression), tn = (t.name ?? t).text
        if (/^(clearTimeout|clearInterval)$/.test(tn)) { const l = c.arguments[0] && label(c.arguments[0]); return { st: l ? addMust(st, `stopped ${l}`) : st, opaque: true, throwSt: null } }
        if (tn === 'removeEventListener') { const l = c.arguments[1] && label(c.arguments[1]); return { st: l ? addMust(st, `stopped ${l}`) : st, opaque: true, throwSt: null } }
        if (external(c) && !targets?.length) return { st, opaque: true, throwSt: null }
        return undefined
      },
      onAssign(e, st) {
        if (!ts.isBinaryExpression(e) || e.operatorToken.kind !== K.EqualsToken) return undefined
        const l = label(e.left), v = strip(e.right)
        if (l && boxes.has(l) && (ts.isNewExpression(v) || (ts.isArrayLiteralExpression(v) && !v.elements.length))) return addMust(st, `cleared ${l}`)
        if (l && ts.isPropertyAccessExpression(strip(e.left)) && strip(e.left).name.text === 'length' && v.getText() === '0') { const b = label(strip(e.left).expression); if (b && boxes.has(b)) return addMust(st, `cleared ${b}`) }
        return undefined
      },
      onRaise: (c, st) => isIface(c) ? st : undefined,
    }, { maxDepth: o.maxDepth ?? 8 })
    I._computeRelevant()
    if (o.vals) I.collectVals = true
    return I.run(fn, o.start)
  }
  function isClear(n) { const m = member(n); return !!m?.on && boxes.has(m.on) && /^(clear|delete|set|push)$/.test(m.name) }
  function assigns(n) { return ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && !!label(n.left) && boxes.has(label(n.left)) }

  // ── closing ──────────────────────────────────────────────────────────
  const SHUT = /^(close|destroy|dispose|lock)$/
  let shut = 0
  for (const c of allClasses) {
    if (!c.name || !w.pkgOf(c)) continue
    const own = classes.get(c)?.boxes ?? []
    const stop = c.members.find(m => ts.isMethodDeclaration(m) && m.body && SHUT.test(m.name.getText()))
    if (!stop) continue
    const timers = c.members.filter(m => ts.isPropertyDeclaration(m) && (isTimer(m) || /Handler$/.test(m.name.getText()) && /=>/.test(m.type?.getText() ?? ''))).map(m => `${c.name.text}.${m.name.getText()}`)
    const relevant = own.length || c.name.text === 'Noydb' || c.name.text === 'PolicyEnforcer'
    if (!relevant) continue
    shut++
    const want = [...own, ...(c.name.text === 'Noydb' && sessionBox ? [sessionBox] : [])]
    const f = run(stop, { assume: e => {
      if (ts.isPropertyAccessExpression(e)) { const n = w.memberName(e); if (timers.includes(n)) return { vals: [SOME] } }
      if (ts.isTypeOfExpression(e) && /^(document|window)$/.test(strip(e.expression).getText())) return { vals: ['object'] }
      return undefined
    } })
    for (const b of want) {
      rep.ob('close', `${c.name.text}.${stop.name.getText()} empties ${b}`, !!f.normal && f.normal.must.has(`cleared ${b}`), { node: stop, fn: stop, msg: `${b} still holds keys after the shutdown` })
      if (f.throwSt && own.includes(b)) rep.ob('close', `${c.name.text}.${stop.name.getText()} empties ${b} when a step fails`, f.throwSt.must.has(`cleared ${b}`), { node: stop, fn: stop, msg: `${b} still holds keys when a step of the shutdown throws` })
    }
    for (const t of timers) rep.ob('timer', `${c.name.text}.${stop.name.getText()} stops ${t}`, !!f.normal && f.normal.must.has(`stopped ${t}`), { node: stop, fn: stop, msg: `${t} keeps running after the shutdown` })
  }
  rep.count('shutdown methods', shut)

  // ── a closed instance ────────────────────────────────────────────────
  const api = publicApi(w).fns
  const db = [...api].filter(([f, n]) => n.startsWith('Noydb.') && f.body && w.pkgOf(f) === 'hub')
  const closedFlag = e => ts.isPropertyAccessExpression(e) && w.memberName(e) === 'Noydb.closed'
  const noydb = allClasses.find(c => c.name?.text === 'Noydb' && w.pkgOf(c) === 'hub')
  if (!noydb?.members.some(m => ts.isPropertyDeclaration(m) && m.name.getText() === 'closed')) rep.missing('after', 'the closed flag of Noydb')
  for (const [fn, name] of db) {
    if (SHUT.test(name.slice(6))) continue
    const hits = []
    run(fn, {
      maxDepth: 10,
      isEvent: n => ts.isCallExpression(n) && storeOp(w, n) === 'get',
      assume(e) {
        if (closedFlag(e)) return { vals: [true] }
        if (ts.isPropertyAccessExpression(e) && /^NoydbOptions\.encrypt$/.test(w.memberName(e) ?? '')) return { vals: [undefined] }
        if (ts.isCallExpression(e)) { const m = member(e); if (m?.on && boxes.has(m.on) && m.on.startsWith('Noydb.')) { if (m.name === 'get') return { vals: [undefined] }; if (m.name === 'has') return { vals: [false] } } }
        return undefined
      },
      onSubtle(c, ctx) { if (/^(decrypt|unwrapKey|deriveKey|deriveBits|importKey)$/.test(subtle(w, c))) hits.push({ c, ctx }) },
      onSet(c, st, ctx) { hits.push({ c, ctx }) },
    })
    const h = hits[0]
    rep.ob('after', name, !h, { node: h?.c ?? fn, fn, msg: 'a closed instance unlocks or hands out keys again', path: h ? chain(w, h.ctx) : [] })
  }
  // ── unlocking while closing ──────────────────────────────────────────
  const late = new Map()
  const entries = []
  for (const m of noydb?.members ?? []) if (m.body) { entries.push(m); walkNodes(m.body, n => { if (isFnLike(n) && n.body && ts.isArrowFunction(n)) { let any = false; walkNodes(n.body, x => { if (ts.isAwaitExpression(x)) any = true }); if (any) entries.push(n) } }) }
  let sets = 0
  for (const fn of entries) run(fn, {
    start: { must: new Set(), may: new Set() },
    onAtom: (e, pol, st) => closedFlag(e) ? (pol ? st : addMust(st, 'open')) : st,
    onAwait: (e, st) => clearFacts(st, 'open'),
    onSet(c, st, ctx, on) {
      if (!on.startsWith('Noydb.')) return
      // judged from the outermost entry only: a helper called in an open state
      if (fn.modifiers?.some(x => x.kind === K.PrivateKeyword) && ts.isMethodDeclaration(fn) && calledInside(fn)) return
      sets++
      const k = `${w.fnName(fn) || 'callback'}: ${on}`
      const ok = st.must.has('open')
      if (!late.has(k) || !ok) late.set(k, { ok, c, fn, ctx })
    },
  })
  for (const [k, x] of late) rep.ob('late', k, x.ok, { node: x.c, fn: x.fn, msg: 'keeps an unlocked key or vault without asking again whether the instance was closed while waiting', path: chain(w, x.ctx) })
  function calledInside(fn) { let y = false; for (const m of noydb.members) if (m !== fn && m.body) walkNodes(m.body, n => { if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && strip(n.expression).expression.kind === K.ThisKeyword && strip(n.expression).name.text === fn.name?.getText()) y = true }); return y }

  // ── sessions ─────────────────────────────────────────────────────────
  const byName = n => [...api].find(([f, m]) => m === n && f.body && w.pkgOf(f) === 'hub')?.[0]
  for (const n of ['revokeSession', 'revokeAllSessions', 'resolveSession', 'isSessionAlive']) if (!byName(n)) rep.missing('revoke', n)
  if (sessionBox) {
    const one = (n, fact, msg) => { const f = byName(n); if (!f) return; const r = run(f); rep.ob('revoke', n, !!r.normal && r.normal.must.has(fact), { node: f, fn: f, msg }) }
    one('revokeSession', `deleted ${sessionBox}`, 'the session key survives')
    one('revokeAllSessions', `cleared ${sessionBox}`, 'session keys survive')
    const probe = (n, { expires, present }) => {
      const f = byName(n), seen = { decrypt: null, throws: new Set(), vals: null }
      const ck = clock(w, { now: 1000, instant: e => ts.isPropertyAccessExpression(e) && e.name.text === 'expiresAt' ? expires : undefined })
      const r = run(f, {
        vals: true,
        assume(e, ctx, I) {
          if (ts.isCallExpression(e)) { const m = member(e); if (m?.on === sessionBox) { if (m.name === 'get') return { vals: [present ? SOME : undefined] }; if (m.name === 'has') return { vals: [present] } } }
          return ck(e, ctx, I)
        },
        onSubtle(c) { if (subtle(w, c) === 'decrypt') seen.decrypt = c },
        onThrow(s, st) { seen.throws.add(thrownClass(w, s) ?? '?'); return st },
      })
      return { ...seen, normal: r.normal, throwSt: r.throwSt, vals: r.vals }
    }
    if (byName('resolveSession')) {
      const fn = byName('resolveSession')
      const late_ = probe('resolveSession', { expires: 500, present: true })
      rep.ob('revoke', 'resolveSession of an expired session', !late_.normal && !late_.decrypt && late_.throws.has('SessionExpiredError'), { node: late_.decrypt ?? fn, fn, msg: 'an expired session is resolved' })
      rep.ob('revoke', 'resolveSession of an expired session forgets its key', !!late_.throwSt && late_.throwSt.must.has(`deleted ${sessionBox}`), { node: fn, fn, msg: 'the key of an expired session stays in memory' })
      const gone = probe('resolveSession', { expires: 5000, present: false })
      rep.ob('revoke', 'resolveSession of a revoked session', !gone.normal && !gone.decrypt && gone.throws.has('SessionNotFoundError'), { node: gone.decrypt ?? fn, fn, msg: 'a revoked session is resolved' })
      const live = probe('resolveSession', { expires: 5000, present: true })
      rep.ob('revoke', 'resolveSession of a live session', !!live.normal && !!live.decrypt, { node: fn, fn, msg: 'a live session is refused' })
    }
    if (byName('isSessionAlive')) for (const [l, o, v] of [['expired', { expires: 500, present: true }, false], ['revoked', { expires: 5000, present: false }, false], ['live', { expires: 5000, present: true }, true]]) {
      const r = probe('isSessionAlive', o)
      rep.ob('revoke', `isSessionAlive of ${l === 'expired' ? 'an' : 'a'} ${l} session`, r.vals?.length === 1 && r.vals[0] === v, { node: byName('isSessionAlive'), fn: byName('isSessionAlive'), msg: `answers ${r.vals?.join(' or ')}` })
    }
  }
  // in-rest sessions hold opened instances
  for (const c of allClasses) {
    if (!classes.has(c) || c.name.text === 'Noydb' || !/^in-/.test(w.pkgOf(c))) continue
    for (const m of c.members) {
      if (!ts.isMethodDeclaration(m) || !m.body || !/^(get|peek|delete|sweep)$/.test(m.name.getText())) continue
      const box = classes.get(c).boxes[0], n = m.name.getText()
      const ck = clock(w, { now: 1000, instant: e => ts.isPropertyAccessExpression(e) && e.name.text === 'expiresAt' ? 500 : undefined })
      const r = run(m, { vals: true, assume: (e, ctx, I) => { if (ts.isCallExpression(e)) { const x = member(e); if (x?.on === box && x.name === 'get') return { vals: [{ db: SOME, expiresAt: 500 }] } } return ck(e, ctx, I) } })
      if (n === 'sweep') { rep.ob('revoke', `${c.name.text}.${n} of an expired session`, !!r.normal && r.normal.may.has(`deleted ${box}`), { node: m, fn: m, msg: 'an expired session is kept' }); continue }
      rep.ob('revoke', `${c.name.text}.${n} of an expired session`, !!r.normal && r.normal.must.has(`deleted ${box}`) && (n === 'delete' || (r.vals?.length === 1 && !r.vals[0])), { node: m, fn: m, msg: 'an expired session is kept or handed out' })
    }
  }
  // ── policies ─────────────────────────────────────────────────────────
  const pe = allClasses.find(c => c.name?.text === 'PolicyEnforcer' && w.pkgOf(c) === 'hub')
  if (!pe) rep.missing('policy', 'PolicyEnforcer')
  else {
    const timers = []
    walkNodes(pe, n => { if (ts.isCallExpression(n) && /^setTimeout$/.test(strip(n.expression).getText()) && isFnLike(strip(n.arguments[0]))) timers.push(['timer', strip(n.arguments[0])]) })
    walkNodes(pe, n => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && /Handler$/.test(strip(n.left).name?.text ?? '') && isFnLike(strip(n.right))) timers.push(['background', strip(n.right)]) })
    const told = c => { const m = w.memberName(strip(c.expression)); return m === 'PolicyEnforcer.onRevoke' || m === 'PolicyEnforcerOptions.onRevoke' }
    const go = fn => run(fn, { isEvent: n => ts.isCallExpression(n) && told(n), assume: e => ts.isPropertyAccessExpression(e) && e.name.text === 'hidden' ? { vals: [true] } : undefined, onCall: (c, st) => ts.isCallExpression(c) && told(c) ? { st: addMust(st, 'told'), opaque: true, throwSt: null } : undefined })
    timers.forEach(([k, fn], i) => {
      const r = go(fn)
      const where = w.fnName(enclosingFn(fn.parent))
      rep.ob('policy', `${where}: ${k} revokes the session`, !!r.normal && r.normal.must.has(`deleted ${sessionBox}`), { node: fn, fn, msg: 'the session survives its timeout' })
      rep.ob('policy', `${where}: ${k} tells the instance`, !!r.normal && r.normal.must.has('told'), { node: fn, fn, msg: 'the instance keeps its keyring after the timeout' })
    })
    // timers are armed with their limits; activity never moves the absolute limit
    const armed = fn => {
      const out = []
      run(fn, { vals: true, isEvent: n => ts.isCallExpression(n) && strip(n.expression).getText() === 'setTimeout', assume: e => { const n = ts.isPropertyAccessExpression(e) ? e.name.text : ts.isIdentifier(e) ? e.text : ''; return n === 'idleTimeoutMs' ? { vals: [100] } : n === 'absoluteTimeoutMs' ? { vals: [1000] } : n === 'lockOnBackground' ? { vals: [true] } : undefined }, onCall(c, st, ctx, I) { if (ts.isCallExpression(c) && strip(c.expression).getText() === 'setTimeout') { const v = I.constEval(c.arguments[1], ctx); out.push(v?.vals.length === 1 ? v.vals[0] : '?'); return { st, opaque: true, throwSt: null } } return undefined } })
      return out
    }
    const ctor = pe.members.find(m => ts.isConstructorDeclaration(m) && m.body), touch = pe.members.find(m => ts.isMethodDeclaration(m) && m.name.getText() === 'touch')
    if (ctor) { const a = armed(ctor).sort().join(); rep.ob('policy', 'a new session arms both limits', a === '100,1000', { node: ctor, fn: ctor, msg: `arms ${a || 'nothing'}` }) }
    if (touch) {
      const a = armed(touch).join(); rep.ob('policy', 'activity restarts only the idle limit', a === '100', { node: touch, fn: touch, msg: `restarts ${a || 'nothing'}` })
    } else rep.missing('policy', 'touch')
    for (const m of pe.members) if (!ts.isConstructorDeclaration(m) && m.body) walkNodes(m.body, n => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && w.memberName(strip(n.left)) === 'PolicyEnforcer.createdAt') rep.ob('policy', `${m.name.getText()} keeps the start of the session`, false, { node: n, fn: m, msg: 'moves the start of the absolute limit' }) })
    // a late check finds the absolute limit exceeded
    const chk = pe.members.find(m => ts.isMethodDeclaration(m) && m.name.getText() === 'checkOperation')
    if (chk) {
      const throws = new Set()
      const ck = clock(w, { now: 10_000 })
      const r = run(chk, { vals: true, isEvent: n => ts.isCallExpression(n) && told(n), assume: (e, ctx, I) => ts.isPropertyAccessExpression(e) && /absoluteTimeoutMs$/.test(e.name.text) ? { vals: [1000] } : ts.isPropertyAccessExpression(e) && /createdAt$/.test(e.name.text) ? { vals: [2000] } : ts.isIdentifier(e) && e.text === 'absoluteTimeoutMs' ? { vals: [1000] } : ck(e, ctx, I), onThrow: (s, st) => { throws.add(thrownClass(w, s)); return st } })
      rep.ob('policy', 'checkOperation past the absolute limit', !r.normal && throws.has('SessionExpiredError') && !!r.throwSt?.must.has(`deleted ${sessionBox}`), { node: chk, fn: chk, msg: 'an operation passes after the absolute limit' })
    } else rep.missing('policy', 'checkOperation')
    rep.atLeast('policy', 5)
  }
  // the instance's own reactions
  if (noydb) {
    walkNodes(noydb, n => {
      if (ts.isPropertyAssignment(n) && n.name.getText() === 'onRevoke' && isFnLike(strip(n.initializer))) {
        const fn = strip(n.initializer), r = run(fn)
        for (const b of classes.get(noydb)?.boxes ?? []) rep.ob('policy', `revocation drops ${b}`, !!r.normal && (r.normal.must.has(`deleted ${b}`) || r.normal.must.has(`cleared ${b}`)), { node: n, fn, msg: `${b} keeps the keys of a revoked session` })
      }
      if (ts.isCallExpression(n) && strip(n.expression).getText() === 'setTimeout' && isFnLike(strip(n.arguments[0]))) {
        const fn = strip(n.arguments[0]), r = run(fn)
        for (const b of classes.get(noydb)?.boxes ?? []) rep.ob('policy', `idle timeout empties ${b}`, !!r.normal && r.normal.must.has(`cleared ${b}`), { node: n, fn, msg: `${b} keeps its keys after the idle timeout` })
      }
    })
  }
  rep.atLeast('close', 3); rep.atLeast('after', 8); rep.atLeast('late', 3); rep.atLeast('revoke', 6)
  rep.count('containers of keys', boxes.size)
  return 'Finds every container whose type can hold keys, follows each shutdown, timeout and revocation on normal and failing paths, and runs every public operation of a closed instance.'
}
