// A09: expired or revoked credentials never unlock anything.
import { ts, strip, stripAwait, storeOp, publicApi, enclosingFn, Interp, origins, mkCtx, chain, walkNodes, walkOwn, addMust, borrow, K } from '../lib/common.mjs'
import { SOME } from '../lib/encon.mjs'
import { keepField } from '../lib/keyfile.mjs'
import { clock } from '../lib/clock.mjs'
import tiers from './A05.mjs'
import remote from './A08.mjs'
import { subtle } from '../lib/crypto.mjs'

const NOW = Date.UTC(2030, 5, 15, 12, 0, 0)
// credential kinds: where the limit is kept, in which unit, and what marks success
const KINDS = [
  { kind: 'session token', type: 'SessionToken', prop: 'expiresAt' },
  { kind: 'PIN resume', type: 'PinResumeState', prop: 'expiresAt' },
  { kind: 'e-mail code', type: 'EmailOtpRecord', prop: 'expiresAt' },
  { kind: 'identity token', type: 'OidcClaims', prop: 'exp', seconds: true },
  { kind: 'magic link', type: 'MagicLinkToken', prop: 'expiresAt' },
  { kind: 'magic-link grant', type: 'MagicLinkGrantPayload', prop: 'until' },
  { kind: 'delegation', type: 'DelegationToken', prop: 'until' },
  { kind: 'key file', type: 'KeyringFile', prop: 'expires_at' },
]
const TIMES = [['expired long ago', -90 * 86_400_000, false], ['expired an hour ago', -3_600_000, false], ['expired a second ago', -1_000, false], ['valid for an hour', 3_600_000, true]]

export default async function (w, rep) {
  rep.rule('refuse', 'with its limit in the past a credential yields no key material and no success')
  rep.rule('accept', 'the same function succeeds while the limit lies in the future')
  rep.rule('flag', 'an expired magic-link grant is reported as expired in the claim')
  rep.rule('revoked', 'a revoked or unknown session is refused, and revocation removes its key')
  rep.rule('policy', 'an idle, absolute or background timeout revokes the session, and operations after the absolute limit are refused')
  rep.rule('handle', 'a released or expired elevation and an expired or unknown HTTP session give no access')
  rep.rule('keep', 'rewriting a key file keeps its limit')
  const api = publicApi(w)
  // functions a caller hands the credential to (or that load it themselves) and what they give back
  const yields = n => ts.isCallExpression(n) && ['decrypt', 'unwrapKey', 'importKey', 'deriveBits', 'deriveKey'].includes(subtle(w, n))
  const gives = n => ts.isCallExpression(n) && ['decrypt', 'unwrapKey'].includes(subtle(w, n))
  const retType = fn => w.checker.typeToString(w.checker.getReturnTypeOfSignature(w.checker.getSignatureFromDeclaration(fn)))
  const typeIs = (e, name) => {
    const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(e))
    return (t.aliasSymbol?.name ?? t.symbol?.name) === name
  }
  const limit = k => (e, t) => {
    if (ts.isPropertyAccessExpression(e) && e.name.text === k.prop && typeIs(e.expression, k.type)) return t
    if (ts.isIdentifier(e)) {
      const d = w.declOf(e)
      if (d && ts.isBindingElement(d) && ts.isObjectBindingPattern(d.parent) && (d.propertyName ?? d.name).getText() === k.prop && typeIs(d.parent, k.type)) return t
    }
    return undefined
  }
  const run = (fn, k, t, extra = {}) => {
    const ev = []
    const base = clock(w, { now: NOW, instant: e => limit(k)(e, t), seconds: k.seconds ? e => limit(k)(e, t) !== undefined : undefined })
    const I = new Interp(w, {
      isEvent: n => ts.isThrowStatement(n) || yields(n) || !!extra.isEvent?.(n),
      assume: (e, ctx, I) => extra.assume?.(e, ctx, I) ?? base(e, ctx, I),
      onCall(c, st, ctx, I) { const x = extra.onCall?.(c, st, ctx, I); if (x) return x; if (yields(c)) { ev.push({ c, ctx, op: subtle(w, c) }); return { st, opaque: true, throwSt: st } } },
    }, { maxDepth: 7 })
    I.collectVals = true
    I._computeRelevant()
    const f = I.run(fn)
    return { ev, f, I }
  }
  for (const k of KINDS) {
    const pool = k.type === 'KeyringFile' ? w.fns.filter(f => w.pkgOf(f) === 'hub' && f.name).map(f => [f, f.name.getText()]) : [...api.fns]
    const fns = pool.filter(([f, n]) => {
      if (!/^(hub|on-)/.test(w.pkgOf(f)) || /^(is|create|issue|enroll|describe|clear|revoke|list|inspect|write|read)[A-Z]?/.test(n) && !/^is/.test(n)) return false
      return useOf(f, k)
    })
    for (const [fn, name] of fns) {
      if (k.kind === 'magic-link grant' && !/claim|Expired/i.test(name)) continue
      const rt = retType(fn)
      const bool = /^boolean$/.test(rt)
      for (const [label, dt, ok] of TIMES) {
        const r = run(fn, k, NOW + dt)
        const inst = `${name}: ${k.kind} ${label}`
        if (bool) {
          const sayExpired = /expired/i.test(name)
          const want = sayExpired ? !ok : ok
          // other conditions may turn a live credential away, never an expired one through
          const good = ok ? r.f.valUnknown || r.f.vals.includes(want) : !r.f.valUnknown && r.f.vals.every(v => v === want)
          rep.ob(ok ? 'accept' : 'refuse', inst, good, { node: fn, fn, msg: `answers ${r.f.valUnknown ? 'unknown' : r.f.vals.join('/')}` })
          continue
        }
        if (k.kind === 'magic-link grant') { claims(fn, name, k, dt, label, ok); continue }
        const hit = r.ev.find(e => k.kind === 'delegation' ? e.op === 'unwrapKey' : gives(e.c))
        if (ok) rep.ob('accept', inst, !!r.f.normal && (r.ev.length > 0 || /VerifyResult/.test(rt)), { node: fn, fn, msg: 'a credential that is still valid is refused' })
        else {
          let msg = ''
          if (k.kind === 'delegation') msg = hit ? `reaches ${w.text(hit.c, 50)}` : ''
          else if (/VerifyResult/.test(rt)) msg = successes(r, fn) ? `can answer ok (${successes(r, fn)})` : ''
          else if (hit) msg = `reaches ${w.text(hit.c, 50)}`
          else if (r.f.normal) msg = 'completes normally'
          rep.ob('refuse', inst, !msg, { node: hit?.c ?? fn, fn, msg: msg && `an expired ${k.kind} ${msg}`, path: hit ? chain(w, hit.ctx) : [] })
        }
      }
    }
    if (!fns.length) rep.missing('refuse', `a function accepting a ${k.kind}`)
    rep.count(`entry points for ${k.kind}`, fns.length)
  }
  /** The function's own code or what it calls in its package reads the limit. */
  function useOf(fn, k) {
    if (fn.parameters.some(p => typeIs(p, k.type))) return /UnlockedKeyring|boolean|VerifyResult/.test(retType(fn))
    if (k.type === 'OidcClaims') return /UnlockedKeyring|boolean/.test(retType(fn)) && w.pkgOf(fn) === 'on-oidc' && !/supports|device/i.test(fn.name?.text ?? '')
    if (k.type === 'DelegationToken') return /DelegationToken\[\]/.test(retType(fn)) && fn.parameters.some(p => typeIs(p, 'UnlockedKeyring'))
    if (k.type === 'MagicLinkGrantPayload') return /ClaimMagicLink/.test(retType(fn))
    if (k.type === 'KeyringFile') return /UnlockedKeyring/.test(retType(fn)) && !fn.parameters.some(p => typeIs(p, 'UnlockedKeyring')) && fn.parameters.some(p => typeIs(p, 'NoydbStore')) && w.pkgOf(fn) === 'hub' && !/create/i.test(fn.name?.text ?? '')
    return false
  }
  /** A returned result that may say ok. */
  function successes(r, fn) {
    for (const v of r.f.vals) {
      if (v && typeof v === 'object' && typeof v.get === 'function') { const ok = v.get('ok', r.I, 0); if (!ok || ok.vals.some(Boolean)) return w.text(v.lit, 50) }
      else if (v) return String(v)
    }
    return r.f.valUnknown ? 'unknown result' : ''
  }
  function claims(fn, name, k, dt, label, ok) {
    const seen = []
    const r = run(fn, k, NOW + dt, {
      isEvent: n => ts.isObjectLiteralExpression(n) && isClaim(n),
      assume: e => (ts.isPropertyAccessExpression(e) && e.name.text === 'now' && typeIs(e.expression, 'ClaimMagicLinkDelegationOptions')) ? { vals: [undefined] } : undefined,
      onCall: undefined,
    })
    void r
    const base = clock(w, { now: NOW, instant: e => limit(k)(e, NOW + dt) })
    const I = new Interp(w, {
      isEvent: n => ts.isObjectLiteralExpression(n) && isClaim(n),
      assume: base,
      onExpr(e, st, ctx, I) { if (ts.isObjectLiteralExpression(e) && isClaim(e)) { const p = e.properties.find(p => p.name?.getText() === 'expired'); seen.push({ e, v: p ? I.constEval(ts.isPropertyAssignment(p) ? p.initializer : p.name, ctx) : null }) } },
    }, { maxDepth: 6 })
    I._computeRelevant(); I.run(fn)
    const bad = seen.find(s => !s.v || s.v.vals.some(x => x !== !ok))
    // a claim that leaves expired grants out altogether is as good
    rep.ob(ok ? 'accept' : 'flag', `${name}: ${k.kind} ${label}`, ok ? seen.length > 0 && !bad : !bad, { node: bad?.e ?? fn, fn, msg: `the claimed grant is flagged ${bad?.v ? bad.v.vals.join('/') : 'unknown'}` })
  }
  function isClaim(n) { const t = w.checker.getContextualType(n); return typeIs(n, 'ClaimedMagicLinkGrant') || (t?.symbol?.name === 'ClaimedMagicLinkGrant') }

  // ── revocation of sessions ──
  const keyMap = (c, names) => { // module-level map from session id to its key
    if (!ts.isCallExpression(c)) return false
    const e = strip(c.expression)
    if (!ts.isPropertyAccessExpression(e) || !names.includes(e.name.text)) return false
    const t = w.checker.getTypeAtLocation(e.expression)
    if (t.symbol?.name !== 'Map') return false
    const a = w.checker.getTypeArguments(t)
    return a.length === 2 && a[1].symbol?.name === 'CryptoKey' && a[0].flags & ts.TypeFlags.String && /session/i.test(w.rel(c.getSourceFile())) && isModuleLevel(e.expression)
  }
  function isModuleLevel(e) { const d = w.declOf(strip(e)); return !!d && ts.isVariableDeclaration(d) && ts.isSourceFile(d.parent.parent.parent) }
  const leavesEarly = fn => { let out = false; walkOwn(fn, n => { if (ts.isBreakStatement(n) || ts.isContinueStatement(n)) out = true }); return out }
  const sessionK = KINDS[0]
  for (const [fn, name] of api.fns) {
    if (w.pkgOf(fn) !== 'hub') continue
    if (fn.parameters.some(p => typeIs(p, 'SessionToken')) && /UnlockedKeyring|boolean/.test(retType(fn))) {
      const r = run(fn, sessionK, NOW + 3_600_000, { assume: e => keyMap(e, ['get']) ? { vals: [undefined] } : keyMap(e, ['has']) ? { vals: [false] } : undefined })
      const ok = /boolean/.test(retType(fn)) ? !r.f.valUnknown && r.f.vals.every(v => !v) : !r.f.normal && !r.ev.some(e => gives(e.c))
      rep.ob('revoked', `${name} with a revoked session`, ok, { node: fn, fn, msg: 'a session whose key was removed is still accepted' })
    }
    if (/^(revokeSession|revokeAllSessions)$/.test(name)) {
      const all = /All/.test(name)
      const I = new Interp(w, {
        isEvent: n => keyMap(n, ['delete', 'clear']),
        onCall(c, st, ctx) {
          if (!keyMap(c, ['delete', 'clear'])) return undefined
          const clear = strip(c.expression).name.text === 'clear'
          const mine = clear || all || origins(w, c.arguments[0], ctx).every(l => { const d = ts.isIdentifier(strip(l.expr)) ? w.declOf(strip(l.expr)) : null; return d && ts.isParameter(d) && d.parent === fn })
          return { st: mine ? addMust(st, 'gone') : st, opaque: true }
        },
      })
      I._computeRelevant()
      const f = I.run(fn)
      rep.ob('revoked', `${name} removes the key`, !!f.normal && (f.normal.must.has('gone') || all && f.normal.may.has('gone') && !leavesEarly(fn)), { node: fn, fn, msg: 'can complete without removing the session key' })
    }
    // an expired session's key is dropped as well
    if (/UnlockedKeyring/.test(retType(fn)) && fn.parameters.some(p => typeIs(p, 'SessionToken'))) {
      let left = false
      const base = clock(w, { now: NOW, instant: e => limit(sessionK)(e, NOW - 1000) })
      const I = new Interp(w, {
        isEvent: n => ts.isThrowStatement(n) || keyMap(n, ['delete', 'clear']),
        assume: (e, ctx, I) => keyMap(e, ['get']) ? { vals: [SOME] } : keyMap(e, ['has']) ? { vals: [true] } : base(e, ctx, I),
        onCall(c, st) { if (keyMap(c, ['delete', 'clear'])) return { st: addMust(st, 'gone'), opaque: true } },
        onThrow(s, st) { if (!st.must.has('gone')) left = true },
      })
      I._computeRelevant(); I.run(fn)
      rep.ob('revoked', `${name} drops the key of an expired session`, !left, { node: fn, fn, msg: 'the key of an expired session stays in memory' })
    }
  }
  rep.atLeast('revoked', 4)

  // ── session policy ──
  for (const cls of w.findClass('PolicyEnforcer', 'packages/hub/')) {
    const isRevoke = n => ts.isCallExpression(n) && w.resolveCall(n, null).some(t => t.fn.name?.getText() === 'revokeSession') || keyMap(n, ['delete'])
    const isTell = n => ts.isCallExpression(n) && (() => { const c = strip(n.expression); return ts.isPropertyAccessExpression(c) && c.name.text === 'onRevoke' })()
    const tells = fn => {
      const I = new Interp(w, { isEvent: n => isRevoke(n) || isTell(n), onCall(c, st) { if (isRevoke(c)) return { st: addMust(st, 'revoked'), opaque: true }; if (isTell(c)) return { st: addMust(st, 'told'), opaque: true } } })
      I._computeRelevant()
      return I.run(fn)
    }
    // timers: what runs when they fire, and after how long
    for (const m of cls.members) if (ts.isMethodDeclaration(m) || ts.isConstructorDeclaration(m)) walkNodes(m, n => {
      if (!ts.isCallExpression(n)) return
      const nm = strip(n.expression).getText().replace(/^globalThis\./, '')
      if (nm !== 'setTimeout' && !/addEventListener$/.test(nm)) return
      const cbE = nm === 'setTimeout' ? n.arguments[0] : n.arguments[1]
      const cbs = callbacks(cbE, mkCtx(m))
      for (const cb of cbs) {
        const I = new Interp(w, {
          isEvent: x => isRevoke(x) || isTell(x),
          assume: e => ts.isPropertyAccessExpression(e) && e.name.text === 'hidden' ? { vals: [true] } : ts.isPropertyAccessExpression(e) && e.name.text === 'visibilityState' ? { vals: ['hidden'] } : undefined,
          onCall(c, st) { if (isRevoke(c)) return { st: addMust(st, 'revoked'), opaque: true }; if (isTell(c)) return { st: addMust(st, 'told'), opaque: true } },
        })
        I._computeRelevant()
        const f = I.run(cb)
        rep.ob('policy', `${w.fnName(m)} ${nm}`, !!f.normal && f.normal.must.has('revoked') && f.normal.must.has('told'), { node: n, fn: m, msg: 'when the limit fires the session is not revoked and reported on every path' })
      }
      if (!cbs.length) rep.ob('policy', `${w.fnName(m)} ${nm}`, false, { node: n, fn: m, msg: 'cannot tell what runs when the limit fires' })
      if (nm === 'setTimeout') {
        const from = origins(w, n.arguments[1], mkCtx(m), { stop: x => ts.isPropertyAccessExpression(x) && /TimeoutMs$/.test(x.name.text) })
        const ok = from.length > 0 && from.every(l => /TimeoutMs$/.test([strip(l.expr).name?.text, ...l.path].filter(Boolean).join('.')))
        rep.ob('policy', `${w.fnName(m)} delay`, ok, { node: n, fn: m, msg: `the timer runs for ${w.text(n.arguments[1])}, not for the configured limit` })
      }
    })
    // the guard before an operation
    for (const m of w.publicMethods(cls)) {
      if (!m.parameters.some(p => /ReAuthOperation/.test(w.checker.typeToString(w.checker.getTypeAtLocation(p))) || /'unlock'|"export"|"grant"/.test(w.checker.typeToString(w.checker.getTypeAtLocation(p))))) continue
      for (const [label, age, want] of [['past the absolute limit', 3_600_001, true], ['long past it', 90 * 86_400_000, true], ['within it', 60_000, false]]) {
        const base = clock(w, { now: NOW, instant: e => ts.isPropertyAccessExpression(e) && e.name.text === 'createdAt' ? NOW - age : undefined })
        let expired = 0, leftover = false
        const I = new Interp(w, {
          isEvent: n => ts.isThrowStatement(n) || isRevoke(n) || isTell(n),
          assume(e, ctx, I) {
            if (ts.isPropertyAccessExpression(e) && e.name.text === 'absoluteTimeoutMs') return { vals: [3_600_000] }
            if (ts.isPropertyAccessExpression(e) && e.name.text === 'requireReAuthFor') return { vals: [undefined] }
            if (ts.isIdentifier(e)) { const d = w.declOf(e); if (d && ts.isBindingElement(d)) { const nm = (d.propertyName ?? d.name).getText(); if (nm === 'absoluteTimeoutMs') return { vals: [3_600_000] }; if (nm === 'requireReAuthFor') return { vals: [undefined] } } }
            return base(e, ctx, I)
          },
          onCall(c, st) { if (isRevoke(c)) return { st: addMust(st, 'revoked'), opaque: true }; if (isTell(c)) return { st, opaque: true } },
          onThrow(s, st) { expired++; if (!st.must.has('revoked')) leftover = true },
        })
        I._computeRelevant()
        const f = I.run(m)
        rep.ob('policy', `${w.fnName(m)} ${label}`, want ? !f.normal && expired > 0 && !leftover : !!f.normal, { node: m, fn: m, msg: want ? (f.normal ? 'the operation is let through' : 'the session key is not removed before refusing') : 'an operation within the limit is refused' })
      }
      for (const [label, list, op, want] of [['requiring re-authentication', ['export'], 'export', true], ['not requiring it', ['export'], 'grant', false]]) {
        const p0 = m.parameters[0]
        const I = new Interp(w, {
          isEvent: n => ts.isThrowStatement(n),
          assume(e, ctx) {
            const nm = ts.isPropertyAccessExpression(e) ? e.name.text : ts.isIdentifier(e) && w.declOf(e) && ts.isBindingElement(w.declOf(e)) ? (w.declOf(e).propertyName ?? w.declOf(e).name).getText() : ''
            if (nm === 'absoluteTimeoutMs') return { vals: [undefined] }
            if (nm === 'requireReAuthFor') return { vals: [list] }
            if (ts.isIdentifier(e) && w.declOf(e) === p0) return { vals: [op] }
            return undefined
          },
        })
        I._computeRelevant()
        const f = I.run(m)
        rep.ob('policy', `${w.fnName(m)} ${label}`, want ? !f.normal : !!f.normal, { node: m, fn: m, msg: want ? 'an operation that requires re-authentication is let through' : 'an operation that needs no re-authentication is refused' })
      }
    }
    void tells
  }
  function callbacks(e, ctx) {
    e = strip(e)
    if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return [e]
    const out = []
    for (const l of origins(w, e, ctx)) { const x = strip(l.expr); if (ts.isArrowFunction(x) || ts.isFunctionExpression(x)) out.push(x); const d = ts.isIdentifier(x) ? w.declOf(x) : ts.isPropertyAccessExpression(x) ? w.declOf(x.name) : null; if (d && (ts.isFunctionDeclaration(d) || ts.isMethodDeclaration(d))) out.push(d) }
    return out
  }
  rep.atLeast('policy', 6)

  // ── forgetting a PIN resume ──
  for (const [fn, name] of api.fns) {
    if (!/^on-pin$/.test(w.pkgOf(fn)) || !/^void$/.test(retType(fn)) || !fn.parameters.some(p => typeIs(p, 'PinResumeState'))) continue
    let dead = null
    const I = new Interp(w, {
      isEvent: n => ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken,
      assume: clock(w, { now: NOW }),
      onAssign(n, st, ctx, I) {
        const L = strip(n.left)
        if (!ts.isPropertyAccessExpression(L)) return st
        if (L.name.text === 'expiresAt') { const v = I.constEval(n.right, ctx); if (v && v.vals.every(x => typeof x === 'string' && Date.parse(x) < NOW)) return addMust(st, 'dead') }
        if (L.name.text === 'attempts') { const r = strip(n.right); if (ts.isPropertyAccessExpression(r) && r.name.text === 'maxAttempts' || r.getText() === 'Infinity') return addMust(st, 'dead') }
        return st
      },
    })
    I._computeRelevant()
    dead = I.run(fn).normal
    rep.ob('revoked', `${name} makes the state unusable`, !!dead && dead.must.has('dead'), { node: fn, fn, msg: 'a cleared PIN state can still be resumed' })
  }

  // ── rewriting a key file keeps its limit ──
  keepField(w, rep, 'keep', { file: 'expires_at', ring: /expire/i }, 'a time-limited slot becomes permanent')
  rep.atLeast('keep', 3)
  // temporary elevations and HTTP sessions
  await borrow(tiers, w, rep, { expire: 'handle' })
  await borrow(remote, w, rep, { 'rest-session': 'handle' })
  rep.atLeast('handle', 8)
  rep.atLeast('refuse', 15); rep.atLeast('accept', 6); rep.atLeast('flag', 3)
  return 'Every public function that accepts or loads a time-limited credential is interpreted with a fixed clock and the limit placed before and after it: before, no decryption, unwrapping or successful result may be reachable; after, it must be. Session revocation, policy timers and rewritten key files are interpreted for the effects that make the refusal stick.'
}
