// S03: authentication failures fail closed.
import { ts, strip, stripAwait, isFnLike, origins, enclosingFn, storeOp, walkNodes, walkOwn, mkCtx, Interp, EMPTY, join, K } from '../lib/common.mjs'
import { subtle, algName } from '../lib/crypto.mjs'
import { encryptionOn, PLAIN } from '../lib/encon.mjs'

const OPEN = new Set(['decrypt', 'unwrapKey', 'verify'])

export default async function (w, rep) {
  rep.rule('aead', 'every decryption and key unwrap uses an authenticated algorithm with the full-length tag')
  rep.rule('mac', 'where integrity is a separate code, the comparison gates every normal completion')
  rep.rule('handler', 'a handler that can receive a verification failure rethrows, reports it, or yields absence: never content')
  rep.rule('read', 'with encryption on, no record content is taken from a stored body without decrypting it')

  // ── algorithms ────────────────────────────────────────────────────────
  const opens = w.calls.filter(c => OPEN.has(subtle(w, c)))
  const I0 = new Interp(w, {})
  for (const c of opens) {
    const m = subtle(w, c), fn = enclosingFn(c)
    const key = `${w.rel(c)}: ${m} in ${w.fnName(fn)}`
    const algArg = m === 'unwrapKey' ? c.arguments[3] : c.arguments[0]
    const alg = algName(w, I0, algArg, mkCtx(fn))
    const names = alg ? [].concat(alg) : []
    const okAlg = names.length > 0 && names.every(a => /^(AES-GCM|AES-KW|HMAC|ECDSA|Ed25519)$/.test(a))
    let tag = null
    const d = I0.deref(algArg, mkCtx(fn))
    if (d?.expr && ts.isObjectLiteralExpression(d.expr)) for (const p of d.expr.properties) if (p.name?.getText() === 'tagLength') {
      const v = I0.constEval(ts.isPropertyAssignment(p) ? p.initializer : p.name, d.ctx)
      if (!v || v.vals.some(x => x !== 128)) tag = w.text(p)
    }
    rep.ob('aead', key, okAlg && !tag, { node: c, fn, msg: tag ? `shortened tag: ${tag}` : `algorithm ${names.join('|') || w.text(algArg)} does not authenticate` })
  }
  // ── separate integrity codes ──────────────────────────────────────────
  const signs = e => ts.isCallExpression(e) && subtle(w, e) === 'sign'
  const macFns = new Map()
  for (const c of w.calls) {
    if (c.arguments.length !== 2 || !enclosingFn(c)) continue
    if (w.checker.typeToString(w.checker.getTypeAtLocation(c)) !== 'boolean') continue
    const fn = enclosingFn(c)
    let own = false
    for (const a of c.arguments) {
      const ls = origins(w, a, mkCtx(fn), { stop: e => !!subtle(w, e), through: e => { const x = strip(e); if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(strip(x.expression)) && /^(slice|subarray)$/.test(strip(x.expression).name.text)) return [strip(x.expression).expression]; if (ts.isNewExpression(x) && x.arguments?.length) return [x.arguments[0]]; return null } })
      if (ls.some(l => signs(strip(l.expr)))) own = true
    }
    if (own) { const l = macFns.get(fn) ?? []; l.push(c); macFns.set(fn, l) }
  }
  for (const [fn, cs] of macFns) for (const c of cs) {
    const I = new Interp(w, { assume: e => (e === c ? { vals: [false] } : undefined) })
    I.relevant = new Set()
    const r = I.run(fn)
    rep.ob('mac', `${w.rel(c)}: integrity code in ${w.fnName(fn)}`, !r.normal, { node: c, fn, msg: 'the function completes normally although the integrity code does not match' })
  }
  // as-zip is the only format with a detached code: its entry decryption must be among the gated ones
  for (const fn of w.findFn('decryptEntryWzAes', 'as-zip')) if (![...macFns.keys()].some(f => f === fn || calls(fn, f))) rep.ob('mac', 'as-zip: entry decryption', false, { node: fn, fn, msg: 'entries are decrypted without comparing their integrity code' })
  function calls(a, b) { let hit = false; walkNodes(a, n => { if (ts.isCallExpression(n) && w.resolveCall(n, null).some(t => t.fn === b)) hit = true }); return hit }

  // ── handlers ──────────────────────────────────────────────────────────
  const reach0 = new Interp(w, { isEvent: n => ts.isCallExpression(n) && OPEN.has(subtle(w, n)) })
  reach0._computeRelevant()
  const opening = reach0.relevant
  const mayOpen = c => (ts.isCallExpression(c) || ts.isNewExpression(c)) && (OPEN.has(subtle(w, c)) || w.resolveCall(c, null).some(t => opening.has(t.fn)))
  const contains = (root, pred) => { let hit = false; walkNodes(root, n => { if (hit || (n !== root && isFnLike(n) && !(n.parent && ts.isCallExpression(n.parent)))) return false; if (pred(n)) hit = true }); return hit }

  // classes a failure can have: what the handlers right around a decryption throw, and native errors
  const supers = cls => { const out = [cls]; let c = w.findClass(cls)[0]; while (c) { const h = c.heritageClauses?.find(x => x.token === K.ExtendsKeyword)?.types[0]?.expression.getText(); if (!h) break; out.push(h); c = w.findClass(h)[0] } return out }
  const failing = new Set(['OperationError'])
  for (const c of opens) {
    let n = c
    while (n && !isFnLike(n)) { if (ts.isTryStatement(n.parent ?? n) && n.parent.tryBlock === n && n.parent.catchClause) walkNodes(n.parent.catchClause, x => { if (ts.isThrowStatement(x)) { const e = strip(x.expression); if (ts.isNewExpression(e) && w.findClass(e.expression.getText()).length) failing.add(e.expression.getText()) } }); n = n.parent }
  }
  rep.count('failure_classes', failing.size)
  const handlers = []
  for (const sf of w.sourceFiles) {
    const pkg = w.pkgOf(sf)
    if (/^(in-|create-noy-db|to-)/.test(pkg)) continue
    walkNodes(sf, n => {
      if (ts.isTryStatement(n) && n.catchClause && contains(n.tryBlock, mayOpen)) handlers.push({ kind: 'catch', node: n.catchClause, body: n.catchClause.block, err: n.catchClause.variableDeclaration?.name, tryS: n })
      if (ts.isCallExpression(n)) {
        const c = strip(n.expression)
        if (!ts.isPropertyAccessExpression(c)) return
        const i = c.name.text === 'catch' ? 0 : c.name.text === 'then' ? 1 : -1
        const cb = i >= 0 && n.arguments[i] ? strip(n.arguments[i]) : null
        if (cb && isFnLike(cb) && contains(c.expression, mayOpen)) handlers.push({ kind: 'promise', node: n, body: cb.body, fnLit: cb, err: cb.parameters[0]?.name })
      }
    })
  }
  const usesErr = (e, h) => { if (!h.err) return false; const s = w.sym(h.err); let hit = false; walkNodes(e, n => { if (ts.isIdentifier(n) && n !== h.err && w.sym(n) === s && !(n.parent && ts.isBinaryExpression(n.parent) && n.parent.operatorToken.kind === K.InstanceOfKeyword)) hit = true }); return hit }
  const isAbsent = (e, h, depth = 0) => {
    e = stripAwait(e)
    if (!e || depth > 6) return !e
    if (e.kind === K.NullKeyword || e.kind === K.FalseKeyword || ts.isVoidExpression(e)) return true
    if (ts.isNumericLiteral(e) && /^0n?$/.test(e.text)) return false
    if (ts.isIdentifier(e)) {
      if (e.text === 'undefined') return true
      const d = w.declOf(e), s = w.sym(e)
      if (d && ts.isVariableDeclaration(d) && d.initializer) return isAbsent(d.initializer, h, depth + 1) && w.assignmentsOf(s).every(a => isAbsent(a.value, h, depth + 1))
      return usesErr(e, h)
    }
    if (ts.isArrayLiteralExpression(e)) return e.elements.every(x => isAbsent(x, h, depth + 1))
    if (ts.isNewExpression(e)) {
      const t = e.expression.getText()
      if (/^(Map|Set)$/.test(t) && !e.arguments?.length) return true
      if (/Error$/.test(t)) return true
    }
    if (ts.isConditionalExpression(e)) return isAbsent(e.whenTrue, h, depth + 1) && isAbsent(e.whenFalse, h, depth + 1)
    if (usesErr(e, h)) return true
    if (contains(e, mayOpen)) return true // tried again with another key: verified again
    if (ts.isObjectLiteralExpression(e)) return e.properties.every(p => (ts.isPropertyAssignment(p) ? isAbsent(p.initializer, h, depth + 1) || ts.isStringLiteralLike(strip(p.initializer)) : false))
    if (ts.isCallExpression(e)) {
      const ts_ = w.resolveCall(e, null)
      if (/^Promise\.(resolve|reject)$/.test(e.expression.getText())) return e.expression.getText() === 'Promise.reject' || e.arguments.every(a => isAbsent(a, h, depth + 1))
      const t = w.checker.typeToString(w.checker.getTypeAtLocation(e))
      if (/^(Promise<)?(void|undefined|null|never|false)>?$/.test(t)) return true
      return ts_.length > 0 && ts_.every(x => w.returnExprs(x.fn).every(r => isAbsent(r, h, depth + 1)))
    }
    return false
  }
  for (const h of handlers) {
    const fn = h.fnLit ?? enclosingFn(h.node)
    const owner = h.fnLit ? enclosingFn(h.node) : fn
    const key = `${w.rel(h.node)}: handler in ${w.fnName(owner)}`
    const bad = new Map()
    let how = new Set()
    for (const cls of failing) {
      const anc = supers(cls).concat(['Error'])
      const errSym = h.err && w.sym(h.err)
      const I = new Interp(w, {
        assume: e => {
          if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.InstanceOfKeyword && errSym && ts.isIdentifier(strip(e.left)) && w.sym(strip(e.left)) === errSym) return { vals: [anc.includes(strip(e.right).getText())] }
          return undefined
        },
        onReturn: (n, st, ctx) => {
          if (ctx.fn !== fn) return
          const e = ts.isReturnStatement(n) ? n.expression : isFnLike(n) ? null : n
          how.add('return')
          if (e && !isAbsent(e, h)) bad.set(e, `returns ${w.text(e, 60)}`)
        },
        onAssign: (n, st, ctx) => {
          if (ctx.fn !== fn || !ts.isBinaryExpression(n) || n.operatorToken.kind !== K.EqualsToken) return undefined
          how.add('assign')
          const l = strip(n.left)
          // only what the rest of the function takes as the outcome
          const ls = ts.isIdentifier(l) ? w.sym(l) : null
          if (ls && tryAssigned(h).has(ls) && !isAbsent(n.right, h)) bad.set(n, `puts ${w.text(n.right, 60)} in place of the verified value`)
          return undefined
        },
      }, { maxDepth: 2 })
      I.relevant = new Set()
      const f = { fn, ctx: mkCtx(fn), depth: 0, throwSt: null, normal: null, retT: null, retF: null, yields: null, vals: [], valUnknown: false, targets: [{ labels: [], isLoop: true, brk: null, cont: null }] }
      let out
      if (h.fnLit && !ts.isBlock(h.body)) { I._return(h.body, EMPTY, f, h.body); out = null } else out = I.block(h.body.statements, EMPTY, f)
      if (f.throwSt) how.add('throw')
      const cont = join(out, join(f.targets[0].cont, f.targets[0].brk))
      if (cont) {
        how.add('continue')
        // what the try block was to compute keeps its earlier value
        if (h.tryS) for (const s of tryAssigned(h)) {
          const d = s.valueDeclaration
          if (assignedIn(h.body, s)) continue
          if (!usedAfter(h.tryS, s)) continue
          if (d && ts.isVariableDeclaration(d) && d.initializer && !isAbsent(d.initializer, h)) bad.set(d, `continues with the earlier value of ${s.name} (${w.text(d.initializer, 40)})`)
        }
      }
    }
    const first = [...bad.keys()][0]
    rep.ob('handler', key, bad.size === 0, { node: first ?? h.node, fn: owner, msg: `after a verification failure it ${[...bad.values()].join('; ')}`, note: [...how].join('+') })
  }
  /** Locals declared outside a try block that the block assigns from something that opens ciphertext. */
  function tryAssigned(h) {
    if (h.assigned) return h.assigned
    const out = new Set()
    if (h.tryS) walkNodes(h.tryS.tryBlock, n => {
      if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken) {
        const l = strip(n.left)
        if (ts.isIdentifier(l)) { const s = w.sym(l), d = s?.valueDeclaration; if (d && (d.pos < h.tryS.pos || d.end > h.tryS.end)) out.add(s) }
      }
    })
    return (h.assigned = out)
  }
  function assignedIn(b, s) { let hit = false; walkNodes(b, n => { if (ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken && ts.isIdentifier(strip(n.left)) && w.sym(strip(n.left)) === s) hit = true }); return hit }
  function usedAfter(t, s) { let hit = false; const fn = enclosingFn(t); if (fn) walkNodes(fn, n => { if (ts.isIdentifier(n) && n.pos >= t.end && w.sym(n) === s) hit = true }); return hit }

  // ── reads ─────────────────────────────────────────────────────────────
  const { reach, defs, prune, isRoot, I } = encryptionOn(w, rep, 'read')
  const isParse = c => ts.isCallExpression(c) && /^JSON\.parse$/.test(strip(c.expression).getText())
  // a stored body may be a container whose sealed members are decrypted one by one
  const opensData = c => ts.isCallExpression(c) && (OPEN.has(subtle(w, c)) || w.resolveCall(c, null).some(t => opening.has(t.fn)))
  const sealedMembers = new Map() // parse call -> member names handed to decryption
  for (const c of w.calls) {
    if (!opensData(c)) continue
    for (const a of c.arguments) for (const l of origins(w, a, mkCtx(enclosingFn(c) ?? null), { defs, prune, stop: e => isParse(e) })) {
      const e = strip(l.expr)
      if (isParse(e) && l.path.length) { const m = sealedMembers.get(e) ?? new Set(); m.add(l.path[0]); sealedMembers.set(e, m) }
    }
  }
  const fromRelay = l => {
    if (l.why !== 'param') return false
    const d = w.declOf(strip(l.expr))
    const fn = d && ts.isParameter(d) ? d.parent : null
    return !!fn && fn.parent && ts.isCallExpression(fn.parent) && storeOp(w, fn.parent) === 'presenceSubscribe'
  }
  let parses = 0
  for (const c of w.calls) {
    if (!isParse(c) || /^(to-|create-noy-db|in-)/.test(w.pkgOf(c))) continue
    const fn = enclosingFn(c)
    if (!fn || !reach.has(c)) continue
    parses++
    const ls = origins(w, c.arguments[0], mkCtx(fn), { callers: true, defs, prune, isRoot, stop: (e, cc, p) => !!subtle(w, e) || isParse(e) || (ts.isPropertyAccessExpression(e) && e.name.text === '_data') })
    const bad = []
    for (const l of ls) {
      const e = strip(l.expr)
      if (isParse(e) && sealedMembers.get(e)?.has(l.path[0])) { bad.push(`sealed member ${l.path[0]} of ${w.text(e, 40)} at ${w.loc(e)}`); continue }
      if (sealedMembers.has(c)) continue
      if (fromRelay(l)) { bad.push(`relay payload ${w.text(e)} at ${w.loc(e)}`); continue }
      if (!(ts.isPropertyAccessExpression(e) && e.name.text === '_data')) continue
      // which collection was it read from
      const src = origins(w, e.expression, l.ctx, { callers: true, defs, prune, isRoot, stop: x => !!storeOp(w, x) })
      const plain = src.length && src.every(s => { const x = strip(s.expr); const op = storeOp(w, x); if (op !== 'get') return false; const v = I.constEval(x.arguments[1], s.ctx); return v && v.vals.every(y => PLAIN.has(y)) })
      if (!plain) bad.push(`${w.text(e)} at ${w.loc(e)}`)
    }
    rep.ob('read', `${w.rel(c)}: content parsed in ${w.fnName(fn)}`, bad.length === 0, { node: c, fn, msg: `used as content without being decrypted: ${bad.join(', ')}` })
  }
  rep.count('parse_sites', parses)
  rep.count('handlers', handlers.length)
  rep.atLeast('aead', 6)
  rep.atLeast('handler', 15)
  rep.atLeast('read', 15)
  return 'Each handler that can receive a verification failure is interpreted once per failure class (instanceof tests decided by the class hierarchy); returned and assigned values must be absence, the error, or a value verified again. Bodies parsed as content with the encryption switch on must come out of a decryption.'
}
