// Runs the Quint simulator (Quint's own parser, type checker, resolver and
// TypeScript evaluator) on many jobs at once: what `quint run` does, but the
// specification is parsed once and the jobs share the processors.
//   node sim.js <quint package> <spec.qnt> <main> <jobs.json> <outdir> <threads> [cache]
// jobs.json: {exprs: [..], jobs: [{name, init, step, samples, steps, seed, invs, invSamples, hide}]}; every sample is
// written to <outdir>/<name>_<k>.itf.json.  "exprs" is only about the cache: what else to resolve.
'use strict'
const wt = require('worker_threads'), fs = require('fs'), path = require('path'), v8 = require('v8'), crypto = require('crypto')

function load(quint) {
  const d = quint + '/dist/src/'
  return {
    ev: require(d + 'runtime/impl/evaluator'), builder: require(d + 'runtime/impl/builder'), trace: require(d + 'runtime/trace'),
    rng: require(d + 'rng'), rv: require(d + 'runtime/impl/runtimeValue'), ids: require(d + 'idGenerator'), verb: require(d + 'verbosity'),
  }
}

function itf(v) {
  switch (v.constructor.name) {
    case 'RuntimeValueInt': return { '#bigint': v.value.toString() }
    case 'RuntimeValueBool': return v.value
    case 'RuntimeValueStr': return v.value
    case 'RuntimeValueVariant': return { tag: v.label, value: itf(v.value) }
    case 'RuntimeValueTupleOrList': {
      const l = []
      for (const x of v.list) l.push(itf(x))
      return v.kind === 'Tup' ? { '#tup': l } : l
    }
    case 'RuntimeValueRecord': {
      const o = {}
      for (const [k, x] of v.map) o[k] = itf(x)
      return o
    }
    case 'RuntimeValueMap': {
      const l = []
      for (const [k, x] of v.map) l.push([itf(k), itf(x)])
      return { '#map': l }
    }
    case 'RuntimeValueSet': {
      const l = []
      for (const x of v.set) l.push(itf(x))
      return { '#set': l }
    }
    default: {     // intervals, power sets, ...
      const l = []
      for (const x of v) l.push(itf(x))
      return { '#set': l }
    }
  }
}

function worker() {
  const { quint, table, out } = wt.workerData
  const Q = load(quint)
  wt.parentPort.on('message', job => {
    if (job === null) process.exit(0)
    let res
    try {
      res = simulate(Q, table, job, out)
    } catch (e) {
      res = { error: String(e && e.stack || e) }
    }
    wt.parentPort.postMessage({ name: job.name, ...res })
  })
}

// An ITF value as a Quint expression.
let fresh = 1n << 60n
const app = (opcode, args) => ({ id: fresh++, kind: 'app', opcode, args })
const str = value => ({ id: fresh++, kind: 'str', value })
function quintOf(v) {
  if (typeof v === 'boolean') return { id: fresh++, kind: 'bool', value: v }
  if (typeof v === 'number') return { id: fresh++, kind: 'int', value: BigInt(v) }
  if (typeof v === 'string') return str(v)
  if (Array.isArray(v)) return app('List', v.map(quintOf))
  if ('#bigint' in v) return { id: fresh++, kind: 'int', value: BigInt(v['#bigint']) }
  if ('#map' in v) return app('Map', v['#map'].map(p => app('Tup', p.map(quintOf))))
  if ('#set' in v) return app('Set', v['#set'].map(quintOf))
  if ('#tup' in v) return app('Tup', v['#tup'].map(quintOf))
  const k = Object.keys(v).filter(x => !x.startsWith('#'))
  if (k.length === 2 && 'tag' in v && 'value' in v)
    return app('variant', [str(v.tag), v.value && v.value.tag === 'UNIT' ? app('Tup', []) : quintOf(v.value)])
  return app('Rec', k.flatMap(x => [str(x), quintOf(v[x])]))
}

// Trace validation: every recorded execution in turn takes the place of the
// definition job.define, and the specification runs over it to its end.
function judge(Q, table, job) {
  const defs = [...table.values()].filter(d => d.kind === 'def' && (d.name === job.define || d.name.endsWith('::' + job.define)))
  if (!defs.length) throw new Error('no definition ' + job.define)
  const judged = []
  for (const tr of JSON.parse(fs.readFileSync(job.traces))) {
    const x = app('List', [quintOf(tr)])
    for (const d of defs) d.expr = x
    const rng = Q.rng.newRng(1n)
    const e = new Q.ev.Evaluator(table, Q.trace.newTraceRecorder(0, rng, 1), rng, false)
    const [init, step] = job.exprs.map(y => Q.builder.buildExpr(e.builder, y))
    const states = []
    let error = null
    e.reset()
    const go = a => {
      const r = a(e.ctx)
      if (r.isLeft()) error = String(r.value.message || r.value)
      if (r.isLeft() || !r.value.toBool()) return false
      e.ctx.shift()
      const o = {}
      for (const [n, y] of e.ctx.varStorage.asRecord().toOrderedMap()) if (!job.hide.includes(n)) o[n] = itf(y)
      states.push(o)
      return true
    }
    try {
      if (go(init)) while (go(step));
    } catch (err) {
      error = String(err)
    }
    judged.push({ states, error })
  }
  return { judged, files: [], steps: 0, evaluated: 0, broken: [] }
}

function simulate(Q, table, job, out) {
  if (job.traces) return judge(Q, table, job)
  const rng = Q.rng.newRng(BigInt(job.seed))
  const recorder = Q.trace.newTraceRecorder(0, rng, 1)
  const e = new Q.ev.Evaluator(table, recorder, rng, false)
  const [init, step, ...invs] = job.exprs.map(x => Q.builder.buildExpr(e.builder, x))
  const yes = r => {
    if (r.isLeft()) throw new Error('evaluation: ' + JSON.stringify(r.value.message || r.value, (k, v) => typeof v === 'bigint' ? v.toString() : v))
    return r.value.toBool()
  }
  const files = [], broken = []
  let steps = 0, evaluated = 0
  for (let k = 0; k < job.samples; k++) {
    e.reset()
    if (!yes(init(e.ctx))) throw new Error('the initial state is not defined')
    const states = []
    let bad = null
    const note = () => {
      e.ctx.shift()
      const o = {}
      for (const [n, x] of e.ctx.varStorage.asRecord().toOrderedMap()) if (!job.hide.includes(n)) o[n] = itf(x)
      states.push(o)
      for (let i = 0; i < invs.length && k < job.invSamples; i++) {
        evaluated++
        if (!yes(invs[i](e.ctx))) { bad = job.invs[i]; break }
      }
    }
    note()
    for (let i = 0; i < job.steps && bad === null; i++) {
      if (!yes(step(e.ctx))) break
      note()
      steps++
    }
    const f = `${out}/${job.name}_${k}.itf.json`
    fs.writeFileSync(f, JSON.stringify({ vars: Object.keys(states[0]), states }))
    files.push(f)
    if (bad !== null) broken.push({ file: f, inv: bad, step: states.length - 1 })
  }
  return { files, steps, evaluated, broken }
}

function tableOf(quint, spec, main, exprs, cache) {
  const d = quint + '/dist/src/'
  const front = require(d + 'parsing/quintParserFrontend'), res = require(d + 'parsing/sourceResolver'), ids = require(d + 'idGenerator')
  const walk = require(d + 'ir/IRVisitor'), analyze = require(d + 'quintAnalyzer').analyzeModules
  const h = crypto.createHash('sha256')
  for (const f of fs.readdirSync(path.dirname(spec)).sort()) if (f.endsWith('.qnt')) h.update(f + '\0' + fs.readFileSync(path.dirname(spec) + '/' + f) + '\0')
  h.update(JSON.stringify([main, exprs]))
  const key = cache && `${cache}/${h.digest('hex').slice(0, 24)}.v8`
  if (key && fs.existsSync(key)) return v8.deserialize(fs.readFileSync(key))
  const idGen = ids.newIdGenerator(), sources = new Map(), text = fs.readFileSync(spec, 'utf8')
  sources.set(spec, text)
  const p1 = front.parsePhase1fromText(idGen, text, spec)
  const r = res.fileSourceResolver(sources)
  const p2 = front.parsePhase2sourceResolution(idGen, r, r.lookupPath(path.dirname(spec), path.basename(spec)), p1)
  const p4 = front.parsePhase4toposort(front.parsePhase3importAndNameResolution(p2))
  if (p4.errors.length) throw new Error('parsing: ' + JSON.stringify(p4.errors.slice(0, 3), (k, v) => typeof v === 'bigint' ? v.toString() : v))
  const [errs] = analyze(p4.table, p4.modules)
  if (errs.length) throw new Error('type checking: ' + errs.slice(0, 3).map(String).join('; '))
  p4.resolver.switchToModule(main)
  const es = exprs.map(x => {
    const p = front.parseExpressionOrDeclaration(x, '<input>', idGen, p4.sourceMap)
    if (p.kind !== 'expr') throw new Error('not an expression: ' + x)
    walk.walkExpression(p4.resolver, p.expr)
    if (p4.resolver.errors.length) throw new Error('cannot resolve: ' + x)
    return p.expr
  })
  const t = { table: p4.resolver.table, es }
  if (key) {
    try {
      fs.mkdirSync(cache, { recursive: true })
      fs.writeFileSync(key + '.' + process.pid, v8.serialize(t))
      fs.renameSync(key + '.' + process.pid, key)
    } catch (e) { /* no cache, then */ }
  }
  return t
}

function main() {
  const [quint, spec, mainName, jobsFile, out, threads, cache] = process.argv.slice(2)
  const { jobs, exprs: all } = JSON.parse(fs.readFileSync(jobsFile))
  const exprs = [...new Set([...all, ...jobs.flatMap(j => [j.init, j.step, ...j.invs])])].sort()
  const { table, es } = tableOf(quint, spec, mainName, exprs, cache)
  const at = new Map(exprs.map((x, i) => [x, es[i]]))
  for (const j of jobs) j.exprs = [j.init, j.step, ...j.invs].map(x => at.get(x))
  const queue = jobs.slice()
  let live = 0, failed = false
  for (let i = 0; i < Math.min(+threads, jobs.length); i++) {
    const w = new wt.Worker(__filename, { workerData: { quint, table, out }, resourceLimits: { maxOldGenerationSizeMb: 3500, maxYoungGenerationSizeMb: 128 } })
    live++
    const give = () => { const j = failed ? undefined : queue.shift(); w.postMessage(j === undefined ? null : j) }
    w.on('message', m => {
      process.stdout.write(JSON.stringify(m) + '\n')
      if (m.error) failed = true
      give()
    })
    w.on('error', e => { process.stdout.write(JSON.stringify({ name: '?', error: String(e && e.stack || e) }) + '\n'); failed = true })
    w.on('exit', () => { if (--live === 0) process.exitCode = failed ? 1 : 0 })
    give()
  }
}

if (wt.isMainThread) main()
else worker()
