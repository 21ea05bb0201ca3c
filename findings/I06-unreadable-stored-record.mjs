// A sealed record the caller cannot decrypt is not recognised as sealed.
const R = process.env.NOYDB_REPO ?? '/repo'
const { createNoydb } = await import(`${R}/packages/hub/dist/index.js`)
const { withPeriods } = await import(`${R}/packages/hub/dist/periods/index.js`)
const { memory } = await import(`${R}/packages/to-memory/dist/index.js`)
const store = memory()
const db = await createNoydb({ store, user: 'owner', secret: 'secret-123456', periodsStrategy: withPeriods() })
const v = await db.openVault('acme')
const c = v.collection('inv', { tiers: [0, 1] })
await c.put('a', { date: '2026-05-01' })
await v.closePeriod({ name: 'Q0', endDate: '2025-12-31', dateField: 'date' })
await db.grant('acme', { userId: 'op', displayName: 'Op', role: 'operator', passphrase: 'secret-654321', permissions: { inv: 'rw' } })
const op = await createNoydb({ store, user: 'op', secret: 'secret-654321', periodsStrategy: withPeriods() })
const c2 = (await op.openVault('acme')).collection('inv')
await c2.list() // the operator's working set is loaded before the record is written
await c.putAtTier('x', { date: '2026-01-15' }, 1)
await v.closePeriod({ name: 'Q1', endDate: '2026-03-31', dateField: 'date' })
try { await c2.put('x', { date: '2026-05-05' }); console.log('sealed record overwritten') } catch (e) { console.log('refused', e.name, e.message) }
