// A10: guessable factors are rate-limited and compared in constant time.
import { ts, strip, stripAwait, publicApi, enclosingFn, Interp, mkCtx, walkOwn, walkNodes, addMust, addMay, drop, clearFacts, assumeProps, isFnLike, K } from '../lib/common.mjs'
import { AbsObj } from '../lib/interp.mjs'
import { clock } from '../lib/clock.mjs'
import { slice } from '../lib/slice.mjs'
import { subtle } from '../lib/crypto.mjs'

const NOW = Date.UTC(2030, 5, 15, 12, 0, 0)
const iso = ms => new Date(ms).toISOString()
const PKGS = /^(on-pin|on-email-otp|on-totp|on-threat)$/

export default async function (w, rep) {
  rep.rule('budget', 'with the attempt budget spent, no key is derived, nothing is compared and the guess is refused')
  rep.rule('open', 'with attempts left, the guess is examined')
  rep.rule('count', 'every wrong guess leaves the attempt counted in the state the caller keeps')
  rep.rule('reserve', 'the attempt is counted before the first asynchronous step, so parallel guesses cannot outrun the budget')
  rep.rule('match', 'a guess succeeds only if the comparison did')
  rep.rule('lockout', 'the lockout policy counts every failure, locks at its threshold, stays locked for the cooldown and latches its terminal state')
  rep.rule('constant', 'codes and digests are compared only by functions that look at every character before deciding')
  const api = publicApi(w)
  const typeIs = (e, name) => {
    const t = w.checker.getNonNullableType(w.checker.getTypeAtLocation(e))
    return (t.aliasSymbol?.name ?? t.symbol?.name) === name
  }
  const retType = fn => w.checker.typeToString(w.checker.getReturnTypeOfSignature(w.checker.getSignatureFromDeclaration(fn)))
  const isComparator = fn => {
    if (!fn || fn.parameters?.length !== 2 || !PKGS.test(w.pkgOf(fn)) || retType(fn) !== 'boolean') return false
    const t = fn.parameters.map(p => w.checker.typeToString(w.checker.getTypeAtLocation(p)).replace(/<.*>/, ''))
    return t[0] === t[1] && /^(string|Uint8Array|number\[\])$/.test(t[0])
  }
  const isCompare = n => ts.isCallExpression(n) && (w.resolveCall(n, null).some(t => isComparator(t.fn)) || /(^|\.)timingSafeEqual$/.test(strip(n.expression).getText()))
  const isCrypto = n => ts.isCallExpression(n) && ['deriveBits', 'deriveKey', 'digest', 'sign', 'decrypt', 'unwrapKey', 'importKey', 'verify'].includes(subtle(w, n))
  const propOf = (e, type) => { // property of the tracked state this expression reads
    e = strip(e)
    if (ts.isPropertyAccessExpression(e) && typeIs(e.expression, type)) return e.name.text
    return null
  }
  /** +1 / -1 / 'set' for a write of type.prop, else null */
  const writeOf = (n, type, prop) => {
    if (ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) {
      if (ts.isPropertyAccessExpression(strip(n.operand)) && strip(n.operand).name.text === prop && isState(strip(n.operand).expression, type)) return n.operator === K.PlusPlusToken ? 1 : -1
      return null
    }
    if (!ts.isBinaryExpression(n)) return null
    const L = strip(n.left)
    if (!ts.isPropertyAccessExpression(L) || L.name.text !== prop || !isState(L.expression, type)) return null
    if (n.operatorToken.kind === K.PlusEqualsToken) return positive(n.right) ? 1 : 'set'
    if (n.operatorToken.kind === K.MinusEqualsToken) return -1
    return increment(n.right, type, prop)
  }
  const isState = (e, type) => typeIs(e, type) || typeIs(strip(e), type) || (ts.isAsExpression(e) && isState(e.expression, type)) || (ts.isParenthesizedExpression(e) && isState(e.expression, type))
  const positive = e => { const x = strip(e); return ts.isNumericLiteral(x) && Number(x.text) > 0 }
  const increment = (e, type, prop, depth = 0) => {
    e = strip(e)
    if (ts.isBinaryExpression(e) && (e.operatorToken.kind === K.PlusToken || e.operatorToken.kind === K.MinusToken)) {
      const reads = x => { x = strip(x); if (propOf(x, type) === prop) return true; const d = ts.isIdentifier(x) ? w.declOf(x) : null; return !!d && ts.isVariableDeclaration(d) && !!d.initializer && propOf(d.initializer, type) === prop }
      if (reads(e.left) && positive(e.right)) return e.operatorToken.kind === K.PlusToken ? 1 : -1
      if (reads(e.right) && positive(e.left) && e.operatorToken.kind === K.PlusToken) return 1
    }
    if (ts.isIdentifier(e) && depth < 3) { const d = w.declOf(e); if (d && ts.isVariableDeclaration(d) && d.initializer) return increment(d.initializer, type, prop, depth + 1) }
    return 'set'
  }

  // ── PIN and e-mail code ──
  for (const [type, kind] of [['PinResumeState', 'PIN resume'], ['EmailOtpRecord', 'e-mail code']]) {
    for (const [fn, name] of api.fns) {
      if (!PKGS.test(w.pkgOf(fn)) || !fn.parameters.some(p => typeIs(p, type))) continue
      const bool = /^(Promise<)?boolean>?$/.test(retType(fn))
      const opens = [...closure(fn)].some(f => { let hit = false; walkOwn(f, n => { if (isCrypto(n) || isCompare(n)) hit = true }); return hit })
      if (!bool && !opens) continue
      const run = (attempts, extra = {}) => {
        const ev = [], rets = [], uncounted = []
        const base = clock(w, { now: NOW })
        const props = assumeProps([{ types: [type], prop: 'attempts', vals: [attempts] }, { types: [type], prop: 'maxAttempts', vals: [5] }, { types: [type], prop: 'expiresAt', vals: [iso(NOW + 60_000)] }])
        const I = new Interp(w, {
          isEvent: n => ts.isThrowStatement(n) || isCrypto(n) || isCompare(n) || writeOf(n, type, 'attempts') !== null,
          assume: (e, ctx, I) => extra.assume?.(e) ?? props(e, ctx, I) ?? base(e, ctx, I),
          onCall(c, st, ctx) {
            if (isCompare(c)) { ev.push({ c, st, ctx, what: 'compare' }); return { st, opaque: true } }
            if (!isCrypto(c)) return undefined
            ev.push({ c, st, ctx, what: subtle(w, c) })
            const dec = subtle(w, c) === 'decrypt'
            return { st: dec ? addMust(st, 'opened') : st, opaque: true, throwSt: dec && !st.must.has('counted') ? addMay(st, 'uncounted') : st }
          },
          onAssign(n, st) {
            const k = writeOf(n, type, 'attempts')
            if (k === 1) return addMust(clearFacts(st, 'uncounted'), 'counted')
            if (k !== null) return st.must.has('opened') ? drop(st, 'counted') : addMay(drop(st, 'counted'), 'uncounted')
            return undefined
          },
          onReturn(node, st, ctx, I) { if (ctx.fn === fn) rets.push({ node, st, v: I._lastRet }) },
        }, { maxDepth: 6 })
        I.collectVals = true
        I._computeRelevant()
        const f = I.run(fn)
        return { f, ev, rets, I }
      }
      const okOf = (v, I) => v instanceof AbsObj ? v.get('ok', I, 0)?.vals ?? ['?'] : [v]
      const refuses = r => !r.f.normal || (!r.f.valUnknown && r.f.vals.every(v => okOf(v, r.I).every(x => x === false)))
      for (const n of [5, 6]) {
        const r = run(n)
        const bad = r.ev.find(e => e.what !== 'importKey')
        rep.ob('budget', `${name}: ${kind} after ${n} of 5 attempts`, !bad && refuses(r), { node: bad?.c ?? fn, fn, msg: bad ? `${w.text(bad.c, 60)} is reached although the budget is spent` : 'the guess is not refused' })
      }
      for (const n of [0, 4]) {
        const r = run(n)
        if (bool) { rep.ob('open', `${name}: ${n} of 5 attempts`, !r.f.valUnknown && r.f.vals.every(v => v === true), { node: fn, fn, msg: 'a state with attempts left is reported unusable' }); continue }
        rep.ob('open', `${name}: ${n} of 5 attempts`, r.ev.length > 0 && !!r.f.normal, { node: fn, fn, msg: 'a guess with attempts left is never examined' })
        const late = r.ev.find(e => !e.st.must.has('counted') && !e.st.must.has('opened'))
        rep.ob('reserve', `${name}: ${kind}, ${n} of 5 attempts`, !late, { node: late?.c ?? fn, fn, msg: late ? `${w.text(late.c, 60)} is awaited before the attempt has been counted` : '' })
        rep.ob('count', `${name}: ${kind}, failed decryption, ${n} of 5`, !r.f.throwSt?.may.has('uncounted'), { node: fn, fn, msg: 'a wrong guess can fail without being counted' })
        if (r.ev.some(e => e.what === 'compare')) {
          const no = run(n, { assume: e => isCompare(e) ? { vals: [false] } : undefined })
          const bad = no.rets.find(x => !x.st.must.has('counted'))
          rep.ob('count', `${name}: ${kind}, mismatch, ${n} of 5`, !bad, { node: bad?.node ?? fn, fn, msg: 'a wrong guess is answered without being counted' })
          rep.ob('match', `${name}: mismatch, ${n} of 5`, refuses(no), { node: fn, fn, msg: 'a guess that does not match is accepted' })
          const yes = run(n, { assume: e => isCompare(e) ? { vals: [true] } : undefined })
          rep.ob('match', `${name}: match, ${n} of 5`, yes.f.vals.some(v => okOf(v, yes.I).includes(true)), { node: fn, fn, msg: 'a matching guess is refused' })
        }
      }
    }
  }
  // ── verifications without a budget of their own ──
  for (const [fn, name] of api.fns) {
    if (!PKGS.test(w.pkgOf(fn)) || !/^Promise<boolean>$/.test(retType(fn)) || isComparator(fn)) continue
    let uses = false
    for (const f of closure(fn)) walkOwn(f, n => { if (isCompare(n)) uses = true })
    const judge = val => {
      const live = new Set(), rets = []
      const set = n => ts.isBinaryExpression(n) && n.operatorToken.kind >= K.FirstAssignment && n.operatorToken.kind <= K.LastAssignment
      const I = new Interp(w, {
        isEvent: n => isCompare(n) || set(n) && PKGS.test(w.pkgOf(n)), assume: e => isCompare(e) ? { vals: [val] } : undefined,
        onCall(c, st) { if (isCompare(c)) return { st, opaque: true } },
        onAssign(n) { live.add(n) },
        onReturn(node, st, ctx) { if (ctx.fn === fn) rets.push({ node, ctx }) },
      }, { maxDepth: 5 })
      I._computeRelevant()
      I.run(fn)
      const out = new Set(), busy = new Set()
      const evalIn = (e, ctx, depth = 0) => {
        e = stripAwait(e)
        const d = ts.isIdentifier(e) ? w.declOf(e) : null
        const asg = d && ts.isVariableDeclaration(d) ? w.assignmentsOf(w.sym(e)) : []
        if (asg.length && depth < 6) {
          if (busy.has(d)) return
          busy.add(d)
          if (d.initializer) evalIn(d.initializer, ctx, depth + 1)
          for (const x of asg) { const n = x.value.parent; if (!set(n) || live.has(n)) { if (set(n) && n.operatorToken.kind === K.AmpersandEqualsToken) continue; evalIn(x.value, ctx, depth + 1) } }
          busy.delete(d)
          return
        }
        if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.BarBarToken) { evalIn(e.left, ctx, depth + 1); evalIn(e.right, ctx, depth + 1); return }
        if (ts.isBinaryExpression(e) && e.operatorToken.kind === K.EqualsEqualsEqualsToken && strip(e.right).kind === K.TrueKeyword) { evalIn(e.left, ctx, depth + 1); return }
        if (ts.isCallExpression(e) && e.expression.getText() === 'Boolean' && e.arguments.length === 1) { evalIn(e.arguments[0], ctx, depth + 1); return }
        const v = I.constEval(e, ctx)
        if (v) for (const x of v.vals) out.add(x); else out.add('?')
      }
      for (const r of rets) { const e = ts.isReturnStatement(r.node) ? r.node.expression : r.node; evalIn(e, r.ctx) }
      return [...out]
    }
    const no = judge(false), yes = judge(true)
    rep.ob('match', `${name} (${w.pkgOf(fn)}) without a match`, uses && no.length > 0 && no.every(v => v === false), { node: fn, fn, msg: uses ? 'can accept although no comparison succeeded' : 'no constant-time comparison is made' })
    rep.ob('match', `${name} (${w.pkgOf(fn)}) with a match`, yes.includes('?') || yes.includes(true), { node: fn, fn, msg: 'a matching code is refused' })
  }
  rep.atLeast('budget', 4); rep.atLeast('count', 4); rep.atLeast('reserve', 3); rep.atLeast('match', 6)

  // ── lockout ──
  const L = 'LockoutState'
  const lockRun = (fn, st0) => {
    const props = assumeProps([
      ...Object.entries(st0).map(([prop, v]) => ({ types: [L], prop, vals: [v] })),
      ...[['threshold', 5], ['windowMs', 900_000], ['cooldownMs', 300_000], ['maxStrikes', 3]].map(([prop, v]) => ({ types: ['LockoutConfig'], prop, vals: [v] })),
    ])
    const base = clock(w, { now: NOW })
    const ends = []
    const note = { failures: 'F', strikes: 'S', wiped: 'W', lockedUntil: 'U', windowStart: 'V' }
    const I = new Interp(w, {
      isEvent: n => Object.keys(note).some(p => writeOf(n, L, p) !== null) || ts.isThrowStatement(n),
      assume: (e, ctx, I) => props(e, ctx, I) ?? base(e, ctx, I),
      onAssign(n, st, ctx, I) {
        for (const p of Object.keys(note)) {
          const k = writeOf(n, L, p)
          if (k === null) continue
          if (k === 1) st = addMust(st, `${p}+`)
          else {
            const v = ts.isBinaryExpression(n) && n.operatorToken.kind === K.EqualsToken ? I.constEval(n.right, ctx) : null
            const x = v?.vals.length === 1 ? v.vals[0] : '?'
            st = addMay(st, `${p}=${x}`)
            st = addMust(st, `${p}=${x}`)
          }
        }
        return st
      },
      onReturn(node, st, ctx) { if (ctx.fn === fn) ends.push({ node, st }) },
    }, { maxDepth: 5 })
    I.collectVals = true
    I._computeRelevant()
    const f = I.run(fn)
    return { f, I, ends }
  }
  const FRESH = { failures: 1, windowStart: iso(NOW - 60_000), lockedUntil: null, strikes: 1, wiped: false }
  const lockFns = [...api.fns].filter(([f]) => PKGS.test(w.pkgOf(f)) && f.parameters.some(p => typeIs(p, L)))
  for (const [fn, name] of lockFns) {
    const ob = (label, ok, msg, node = fn) => rep.ob('lockout', `${name}: ${label}`, ok, { node, fn, msg })
    const rt = retType(fn)
    const field = (r, nm) => r.f.valUnknown ? ['?'] : r.f.vals.flatMap(v => v instanceof AbsObj ? v.get(nm, r.I, 0)?.vals ?? ['?'] : ['?'])
    const all = (a, v) => a.length > 0 && a.every(x => x === v)
    if (/AttemptOutcome/.test(rt)) {
      let r
      for (const strikes of [0, 1, 2]) for (const failures of [1, 3, 4]) {
        r = lockRun(fn, { ...FRESH, strikes, failures })
        ob('a failure within the window is counted', r.ends.every(e => e.st.must.has('failures+')), 'a failed attempt can return without being counted')
      }
      r = lockRun(fn, FRESH)
      ob('a failure within the window keeps the earlier ones', !r.f.normal?.may.has('failures=0'), 'earlier failures of the same window are forgotten')
      ob('below the threshold it is not locked', all(field(r, 'locked'), false), 'locks before the threshold')
      // the counter as it reads after counting this failure
      r = lockRun(fn, { ...FRESH, failures: 5 })
      ob('reaching the threshold locks', all(field(r, 'locked'), true), `reports locked=${field(r, 'locked').join('/')} at the threshold`)
      ob('reaching the threshold is remembered', r.ends.every(e => e.st.must.has('strikes+') && [...e.st.must].some(x => x === `lockedUntil=${iso(NOW + 300_000)}` || x === 'wiped=true')), 'the lock is reported but not recorded with the configured cooldown')
      r = lockRun(fn, { ...FRESH, failures: 5, strikes: 3 })
      ob('the last strike wipes', all(field(r, 'wipe'), true) && all(field(r, 'locked'), true) && r.ends.every(e => e.st.must.has('wiped=true')), 'the last strike does not latch the terminal state')
      r = lockRun(fn, { ...FRESH, failures: 5, lockedUntil: iso(NOW + 1_000) })
      ob('during the cooldown it stays locked', all(field(r, 'locked'), true) && !r.f.normal?.may.has('lockedUntil=null'), 'a failure during the cooldown lifts the lock')
      r = lockRun(fn, { ...FRESH, windowStart: iso(NOW - 800_000) })
      ob('a failure late in the window keeps the earlier ones', !r.f.normal?.may.has('failures=0'), 'earlier failures of the same window are forgotten')
      for (const [label, row] of [['after a cooldown', { failures: 5, lockedUntil: iso(NOW - 1_000) }], ['in a new window', { windowStart: iso(NOW - 86_400_000) }], ['in the window', {}]]) {
        r = lockRun(fn, { ...FRESH, ...row })
        ob(`a failure ${label} keeps the strikes`, ![...r.f.normal?.may ?? []].some(x => x.startsWith('strikes=')), 'earlier lockouts are forgotten')
      }
      r = lockRun(fn, { ...FRESH, wiped: true, windowStart: iso(NOW - 86_400_000) })
      ob('a wiped state stays locked', all(field(r, 'locked'), true) && !r.f.normal?.may.has('wiped=false'), 'a wiped state is reported as unlocked')
      r = lockRun(fn, { ...FRESH, windowStart: null, failures: 0 })
      ob('the first failure is counted and opens the window', r.ends.every(e => e.st.must.has('failures+') && [...e.st.must].some(x => x.startsWith('windowStart=') && x !== 'windowStart=null')), 'the first failure starts no window')
    } else if (rt === 'boolean') {
      for (const [label, s, want] of [['during the cooldown', { ...FRESH, lockedUntil: iso(NOW + 1_000) }, true], ['wiped', { ...FRESH, wiped: true }, true], ['wiped, cooldown over', { ...FRESH, wiped: true, lockedUntil: iso(NOW - 1_000) }, true], ['cooldown over', { ...FRESH, lockedUntil: iso(NOW - 1_000) }, false], ['never locked', FRESH, false]]) {
        const r = lockRun(fn, s)
        ob(label, !r.f.valUnknown && r.f.vals.length > 0 && r.f.vals.every(v => !!v === want), `answers ${r.f.valUnknown ? 'unknown' : r.f.vals.join('/')}, expected ${want}`)
      }
    } else if (rt === 'void') {
      const r = lockRun(fn, { ...FRESH, wiped: true, strikes: 2 })
      const writes = [...(r.f.normal?.may ?? [])].filter(x => /^(strikes|wiped)=/.test(x))
      ob('a success does not erase strikes or the terminal state', !writes.length, `writes ${writes.join(', ')}`)
    }
  }
  rep.atLeast('lockout', 10)

  // ── constant-time comparison ──
  const secret = (e, ctx) => [...slice(w, e, ctx, { callers: true }).calls.keys()].some(c => ['deriveBits', 'digest', 'sign'].includes(subtle(w, c)))
  const str = e => /^(string|Uint8Array|ArrayBuffer)/.test(w.checker.typeToString(w.checker.getTypeAtLocation(e)))
  const EARLY = new Set(['includes', 'startsWith', 'endsWith', 'localeCompare', 'indexOf', 'has', 'every', 'some', 'find', 'findIndex', 'equals', 'compare', 'match', 'test', 'search'])
  const EQ = new Set([K.EqualsEqualsEqualsToken, K.ExclamationEqualsEqualsToken, K.EqualsEqualsToken, K.ExclamationEqualsToken])
  let comparators = 0
  for (const fn of w.fns) {
    if (!PKGS.test(w.pkgOf(fn))) continue
    walkOwn(fn, n => {
      if (ts.isBinaryExpression(n) && EQ.has(n.operatorToken.kind) && str(n.left) && str(n.right) && !(single(n.left) && single(n.right)) && !lit(n.left) && !lit(n.right)) {
        const bad = secret(n.left, mkCtx(fn)) || secret(n.right, mkCtx(fn))
        rep.ob('constant', `${w.fnName(fn)} ${w.text(n, 50)}`, !bad, { node: n, fn, msg: 'a secret-derived value is compared with an operator that stops at the first difference' })
      }
      if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(strip(n.expression)) && EARLY.has(strip(n.expression).name.text)) {
        const parts = [strip(n.expression).expression, ...n.arguments.filter(a => !isFnLike(strip(a)))]
        if (parts.some(x => str(x) || /\[\]$/.test(w.checker.typeToString(w.checker.getTypeAtLocation(x)))) && parts.some(x => secret(x, mkCtx(fn)))) {
          rep.ob('constant', `${w.fnName(fn)} ${w.text(n, 50)}`, false, { node: n, fn, msg: 'a secret-derived value is examined by a method that stops at the first difference' })
        }
      }
    })
    if (isComparator(fn)) {
      comparators++
      const why = comparatorFlaw(fn)
      rep.ob('constant', `${w.fnName(fn)} (${w.pkgOf(fn)}) looks at every character`, !why, { node: fn, fn, msg: why ?? '' })
    }
  }
  rep.count?.('comparators', comparators)
  rep.atLeast('constant', 3)
  // one character of a string, whose own comparison takes constant time
  function single(e) { e = strip(e); return ts.isElementAccessExpression(e) || (ts.isCallExpression(e) && /\.(charAt|at)$/.test(strip(e.expression).getText())) }
  function lit(e) { e = strip(e); return ts.isStringLiteral(e) || ts.isNoSubstitutionTemplateLiteral(e) || (ts.isIdentifier(e) && e.text === 'undefined') }
  function comparatorFlaw(fn) {
    const params = fn.parameters.map(p => w.sym(p.name))
    const onData = e => { let hit = false; walkNodes(e, x => { if (ts.isIdentifier(x) && params.includes(w.sym(x)) && !(ts.isPropertyAccessExpression(x.parent) && x.parent.name.text === 'length')) hit = true; else if (ts.isIdentifier(x)) { const d = w.declOf(x); if (d && ts.isVariableDeclaration(d) && d.initializer && d.parent.flags & ts.NodeFlags.Const && d !== e.parent && !ts.isForOfStatement(d.parent.parent) && onDataShallow(d.initializer)) hit = true } }); return hit }
    const onDataShallow = e => { let hit = false; walkNodes(e, x => { if (ts.isIdentifier(x) && params.includes(w.sym(x)) && !(ts.isPropertyAccessExpression(x.parent) && x.parent.name.text === 'length')) hit = true }); return hit }
    const reads = e => { let n = new Set(); walkNodes(e, x => { if (ts.isIdentifier(x) && params.includes(w.sym(x))) n.add(w.sym(x)) }); return n.size }
    if (ts.isBlock(fn.body) === false) return onData(fn.body) && !ts.isCallExpression(strip(fn.body)) ? 'decides with an operator that stops at the first difference' : null
    let loops = 0, flaw = null, lengths = false, delegated = false
    walkOwn(fn, n => {
      if (ts.isBinaryExpression(n)) {
        const sides = [n.left, n.right].map(s => strip(s).getText())
        if ((EQ.has(n.operatorToken.kind) || n.operatorToken.kind === K.CaretToken) && sides.every(s => /\.length$/.test(s)) && reads(n) === 2) lengths = true
      }
      if (isCompare(n)) delegated = true
      const body = ts.isForStatement(n) || ts.isForOfStatement(n) || ts.isWhileStatement(n) || ts.isDoStatement(n) ? n.statement : null
      if (!body) return
      loops++
      walkNodes(body, x => {
        if (flaw) return
        if (ts.isReturnStatement(x) || ts.isBreakStatement(x)) flaw = 'leaves the loop before every character has been looked at'
        if (ts.isBinaryExpression(x) && x.operatorToken.kind === K.EqualsToken && ts.isIdentifier(strip(x.left))) {
          const s = w.sym(strip(x.left))
          let keeps = false
          walkNodes(x.right, y => { if (ts.isIdentifier(y) && w.sym(y) === s) keeps = true })
          const dv = s?.valueDeclaration
          const outer = dv && !(dv.pos >= n.pos && dv.end <= n.end)
          if (outer && !keeps && onDataShallow(x.right)) flaw = `${w.text(x, 40)} forgets the differences found before`
        }
        if (ts.isBinaryExpression(x) && (x.operatorToken.kind === K.AmpersandEqualsToken) && onDataShallow(x.right) && /\^/.test(x.right.getText())) flaw = `${w.text(x, 40)} forgets the differences found before`
      })
      if (!flaw && ts.isForStatement(n)) {
        // the counter runs over the whole length
        const init = n.initializer && ts.isVariableDeclarationList(n.initializer) ? n.initializer.declarations[0] : null
        const c = n.condition && strip(n.condition)
        const whole = e => { e = strip(e); if (/\.length$/.test(e.getText()) || /^Math\.max\(/.test(e.getText())) return true; if (ts.isIdentifier(e)) { const d = w.declOf(e); return !!d && ts.isVariableDeclaration(d) && !!d.initializer && (whole(d.initializer)) } return false }
        if (init?.initializer && c && ts.isBinaryExpression(c)) {
          const up = strip(init.initializer).getText() === '0'
          if (up && c.operatorToken.kind === K.LessThanToken && !whole(c.right)) flaw = `the loop over ${w.text(c, 40)} does not cover the whole value`
          else if (up && c.operatorToken.kind !== K.LessThanToken && c.operatorToken.kind !== K.ExclamationEqualsEqualsToken) flaw = `the loop over ${w.text(c, 40)} does not cover the whole value`
          else if (!up && strip(init.initializer).getText() !== '0' && c.operatorToken.kind === K.LessThanToken) flaw = `the loop starting at ${w.text(init.initializer, 30)} does not cover the whole value`
        }
      }
    })
    if (flaw) return flaw
    if (delegated) return null
    if (!loops) return 'has no loop over the characters'
    if (!lengths) return 'values of different length can compare equal'
    return null
  }
  function closure(fn) {
    const seen = new Set([fn]), work = [fn]
    while (work.length) { const f = work.pop(); walkOwn(f, n => { if (ts.isCallExpression(n)) for (const t of w.resolveCall(n, null)) if (PKGS.test(w.pkgOf(t.fn)) && !seen.has(t.fn)) { seen.add(t.fn); work.push(t.fn) } }) }
    return seen
  }
  return 'Each verification is interpreted with the attempt budget spent and unspent and with the comparison (or decryption) failing and succeeding: spent budgets must refuse before anything is derived, every failure must leave the state counted, counted before the first await, and success must depend on the comparison. The lockout functions are evaluated as a decision table over their state. String equality and early-exit methods are searched for operands derived from secrets, and the comparison functions are checked to visit every character.'
}
