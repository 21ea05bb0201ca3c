// node check.mjs <ID>... [--tier quick|thorough]: decide properties on the current source of the repository.
import { World } from './lib/world.mjs'
import { Report } from './lib/report.mjs'
const args = process.argv.slice(2)
const ti = args.indexOf('--tier')
const tier = ti >= 0 ? args.splice(ti, 2)[1] : (process.env.VERIF_TIER ?? 'quick')
let code = 0
let world
for (const id of args) {
  const mod = await import(`./checks/${id}.mjs`)
  world ??= new World()
  const errs = world.program.getSyntacticDiagnostics()
  if (errs.length) { console.log(`cannot analyse: ${errs.length} syntax errors`); process.exit(2) }
  const rep = new Report(id, world, tier)
  const explanation = await mod.default(world, rep, tier)
  code = Math.max(code, rep.finish(explanation))
}
process.exit(code)
