// Nothing is compiled ahead of time: confirm the analyser can load the program.
import { World } from '../lib/world.mjs'
const w = new World()
if (w.sourceFiles.length < 100 || w.fns.length < 1000) { console.error('program did not load'); process.exit(2) }
console.log(`program loads: ${w.sourceFiles.length} files, ${w.fns.length} functions, ${w.loadMs} ms`)
