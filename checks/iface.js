// The repository's JavaScript client and its published interface description
// against the cases that iface.rs wrote out of the behaviours of spec/iface.qnt.
//   node iface.js <typescript module> <repo> <cases.json>
// One JSON line {"who","what"} per discrepancy; the last line has the counts.
// The client is run as it is; the library it is built on (umi), which is not
// installed here, is stood in for below by what its documentation promises.
'use strict'
const fs = require('fs'), path = require('path'), Module = require('module')
const [, , tsPath, repo, casesFile] = process.argv
const ts = require(tsPath)
const cases = JSON.parse(fs.readFileSync(casesFile, 'utf8'))

const said = new Set(), compared = {}
function eq(who, what, want, got) {
  compared[who] = (compared[who] || 0) + 1
  const show = v => JSON.stringify(v, (_, x) => typeof x === 'bigint' ? x + 'n' : x === undefined ? '(undefined)' : x)
  const [a, b] = [show(want), show(got)]
  if (a !== b) {
    const l = JSON.stringify({ who, what: `${what}: the specification says ${a}, not ${b}` })
    if (said.size < 200 && !said.has(l)) { said.add(l); console.log(l) }
  }
}
function attempt(who, what, f) {
  try { return f() } catch (e) { eq(who, what, 'fine', String(e && e.message || e)); return undefined }
}

// ------------------------------------------------------------------ stand-ins
const hex = b => Buffer.from(b).toString('hex')
const unhex = s => new Uint8Array(Buffer.from(s, 'hex'))
const ALPHA = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
function to58(b) {
  let n = BigInt('0x' + (hex(b) || '0')), s = ''
  while (n > 0n) { s = ALPHA[Number(n % 58n)] + s; n /= 58n }
  for (let i = 0; i < b.length && b[i] === 0; i++) s = '1' + s
  return s
}
function from58(s) {
  if (typeof s !== 'string') throw Error('not a public key: ' + s)
  let n = 0n
  for (const c of s) { const i = ALPHA.indexOf(c); if (i < 0) throw Error('not base 58: ' + s); n = n * 58n + BigInt(i) }
  const out = new Uint8Array(32)
  for (let i = 31; i >= 0; i--) { out[i] = Number(n & 255n); n >>= 8n }
  if (n) throw Error('longer than a public key: ' + s)
  return out
}
const concat = l => new Uint8Array([].concat(...l.map(x => Array.from(x))))
const unsigned = (size, big) => () => ({
  description: 'u' + size * 8, fixedSize: size, maxSize: size,
  serialize(v) {
    if (typeof v !== 'number' && typeof v !== 'bigint') throw Error('not a number: ' + v)
    let n = BigInt(v)
    if (n < 0n || n >> BigInt(8 * size)) throw Error('out of range: ' + v)
    const o = new Uint8Array(size)
    for (let i = 0; i < size; i++) { o[i] = Number(n & 255n); n >>= 8n }
    return o
  },
  deserialize(b, at = 0) {
    if (b.length < at + size) throw Error('too short')
    let n = 0n
    for (let i = size - 1; i >= 0; i--) n = (n << 8n) | BigInt(b[at + i])
    return [big ? n : Number(n), at + size]
  },
})
const signed = (size, big) => () => {
  const u = unsigned(size, true)(), m = 1n << BigInt(8 * size), r = n => big ? n : Number(n)
  return { ...u, serialize: v => u.serialize(BigInt.asUintN(8 * size, BigInt(v))),
    deserialize: (b, at = 0) => { const [v, e] = u.deserialize(b, at); return [r(v >= m / 2n ? v - m : v), e] } }
}
const ser = {
  u8: unsigned(1, false), u16: unsigned(2, false), u32: unsigned(4, false), u64: unsigned(8, true), u128: unsigned(16, true),
  i8: signed(1, false), i16: signed(2, false), i32: signed(4, false), i64: signed(8, true), i128: signed(16, true),
  bool: () => ({ serialize: v => new Uint8Array([v ? 1 : 0]), deserialize: (b, at = 0) => [b[at] === 1, at + 1] }),
  publicKey: () => ({
    serialize: v => from58(umi.publicKey(v, false)),
    deserialize: (b, at = 0) => { if (b.length < at + 32) throw Error('too short'); return [to58(b.slice(at, at + 32)), at + 32] },
  }),
  option: (item, o = {}) => {
    const prefix = o.prefix || ser.u8()
    return {
      serialize(v) {
        if (v && typeof v === 'object' && '__option' in v) v = v.__option === 'Some' ? v.value : null
        if (v === undefined) throw Error('missing')
        return v === null ? prefix.serialize(0) : concat([prefix.serialize(1), item.serialize(v)])
      },
      deserialize(b, at = 0) {
        const [t, e] = prefix.deserialize(b, at)
        if (!Number(t)) return [{ __option: 'None' }, e]
        const [value, f] = item.deserialize(b, e)
        return [{ __option: 'Some', value }, f]
      },
    }
  },
  struct: fields => ({
    serialize: v => concat(fields.map(([n, s]) => s.serialize(v[n]))),
    deserialize(b, at = 0) {
      const o = {}
      for (const [n, s] of fields) { const [v, e] = s.deserialize(b, at); o[n] = v; at = e }
      return [o, at]
    },
  }),
  array: (item, o = {}) => ({
    serialize(v) {
      const n = o.size === undefined ? null : o.size
      if (typeof n === 'number' && v.length !== n) throw Error('array of another length')
      const body = v.map(x => item.serialize(x))
      return concat(typeof n === 'number' ? body : [(n && n.serialize ? n : ser.u32()).serialize(v.length), ...body])
    },
    deserialize(b, at = 0) {
      let n = o.size
      if (typeof n !== 'number') [n, at] = (n && n.deserialize ? n : ser.u32()).deserialize(b, at)
      const l = []
      for (let i = 0; i < n; i++) { const [v, e] = item.deserialize(b, at); l.push(v); at = e }
      return [l, at]
    },
  }),
  nullable: (item, o) => { const s = ser.option(item, o); return { ...s, deserialize: (b, at = 0) => { const [v, e] = s.deserialize(b, at); return [umi.unwrapOption(v), e] } } },
  tuple: items => ({
    serialize: v => concat(items.map((s, i) => s.serialize(v[i]))),
    deserialize(b, at = 0) { const l = []; for (const s of items) { const [v, e] = s.deserialize(b, at); l.push(v); at = e } return [l, at] },
  }),
  bytes: (o = {}) => ({
    serialize: v => o.size && o.size.serialize ? concat([o.size.serialize(v.length), v]) : typeof o.size === 'number' ? concat([v, new Uint8Array(o.size)]).slice(0, o.size) : new Uint8Array(v),
    deserialize(b, at = 0) {
      let n = o.size
      if (n && n.deserialize) [n, at] = n.deserialize(b, at)
      const end = n === undefined ? b.length : at + Number(n)
      return [b.slice(at, end), end]
    },
  }),
  unit: () => ({ serialize: () => new Uint8Array(), deserialize: (b, at = 0) => [undefined, at] }),
  base58: { serialize: v => from58(v), deserialize: (b, at = 0) => [to58(b.slice(at)), b.length] },
  mergeBytes: concat,
  mapSerializer: (s, unmap, map) => ({ ...s, serialize: v => s.serialize(unmap(v)), deserialize: (b, at = 0) => { const [v, e] = s.deserialize(b, at); return [map ? map(v, b, at) : v, e] } }),
  scalarEnum: (e, o = {}) => {
    const size = o.size || ser.u8()
    const variants = [...new Set(Object.keys(e).filter(k => Number.isNaN(Number(k))))]
    return {
      serialize(v) {
        const i = typeof v === 'number' ? v : variants.indexOf(v)
        if (i < 0 || i >= variants.length) throw Error('no such variant: ' + v)
        return size.serialize(i)
      },
      deserialize(b, at = 0) {
        const [i, end] = size.deserialize(b, at), n = Number(i)
        if (n >= variants.length) throw Error('no such variant: ' + n)
        return [typeof e[variants[0]] === 'number' ? n : e[variants[n]], end]
      },
    }
  },
}
class ProgramError extends Error {
  constructor(message, program, cause) { super(message); this.program = program; this.cause = cause }
}
const umi = {
  isPda: v => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && typeof v[0] === 'string',
  isSigner: v => typeof v === 'object' && v !== null && 'publicKey' in v && 'signMessage' in v,
  publicKey(v) {
    if (typeof v === 'string') return v
    if (umi.isPda(v)) return v[0]
    if (v && typeof v === 'object' && 'publicKey' in v) return v.publicKey
    throw Error('not a public key: ' + v)
  },
  publicKeyBytes: v => from58(umi.publicKey(v)),
  samePublicKey: (a, b) => umi.publicKey(a) === umi.publicKey(b),
  defaultPublicKey: () => '11111111111111111111111111111111',
  isPublicKey: v => typeof v === 'string',
  transactionBuilder: (items = []) => ({
    items,
    add: x => umi.transactionBuilder([...items, ...(x.items || [].concat(x))]),
    append: x => umi.transactionBuilder([...items, ...(x.items || [].concat(x))]),
    getInstructions: () => items.map(i => i.instruction),
  }),
  ProgramError,
  deserializeAccount(raw, s) {
    const { data, publicKey, ...header } = raw
    return { publicKey, header, ...s.deserialize(data)[0] }
  },
  assertAccountExists(a, n) { if (!a.exists) throw Error('no account ' + n) },
  gpaBuilder: (context, programId) => {
    const g = { programId, registerFields: f => ({ ...g, fields: f, __proto__: g }), deserializeUsing(f) { return { ...this, decode: f } } }
    return g
  },
  isSome: o => o.__option === 'Some', isNone: o => o.__option === 'None',
  wrapNullable: v => v === null || v === undefined ? umi.none() : umi.some(v),
  unwrapOption: (o, f) => o.__option === 'Some' ? o.value : f ? f() : null,
  unwrapOptionRecursively: o => umi.unwrapOption(o),
  none: () => ({ __option: 'None' }), some: value => ({ __option: 'Some', value }),
}
const STANDINS = { '@metaplex-foundation/umi': umi, '@metaplex-foundation/umi/serializers': ser }
const load0 = Module._load
Module._load = function (req, parent, main) { return STANDINS[req] || load0.call(this, req, parent, main) }
require.extensions['.ts'] = (m, f) => m._compile(ts.transpileModule(fs.readFileSync(f, 'utf8'), {
  fileName: f, compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2020, esModuleInterop: true } }).outputText, f)

// --------------------------------------------------------------------- client
const JS = 'JavaScript client'
const SRC = repo + '/clients/js/src'
const client = attempt(JS, 'it loads', () => require(SRC + '/index.ts')) || {}
const lower = s => s[0].toLowerCase() + s.slice(1)
const le = h => { let n = 0n; for (const x of [...unhex(h)].reverse()) n = (n << 8n) | BigInt(x); return n }
const LOCK = cases.facts.lockups
const DEFAULTS = { payer: 'context', rent: cases.constants.rent, tokenProgram: cases.constants.tokenProgram, systemProgram: cases.constants.systemProgram }
const signer = k => ({ publicKey: k, signMessage() {}, signTransaction() {}, signAllTransactions() {} })
const CONTEXT_PAYER = to58(new Uint8Array(32).fill(5))
const asked = []
const context = {
  payer: signer(CONTEXT_PAYER), identity: signer(CONTEXT_PAYER),
  programs: { getPublicKey: (name, fallback) => { asked.push(name); return fallback }, get: n => ({ name: n, publicKey: null }) },
}

/// Every acceptable way of writing the value.
function written(ty, h) {
  if (ty === 'u64') return le(h) <= BigInt(Number.MAX_SAFE_INTEGER) ? [le(h), Number(le(h))] : [le(h)]
  if (ty === 'publicKey') return [to58(unhex(h))]
  if (ty === 'LockupPeriod') return [client.LockupPeriod[LOCK[Number(le(h))]]]
  if (ty === 'option<u64>') return h === '00' ? [null, umi.none()] : [le(h.slice(2)), umi.some(le(h.slice(2)))]
  throw Error(ty)
}

for (const c of cases.instructions) {
  const name = c.name
  if (typeof client[lower(name)] !== 'function') { eq(JS, name, 'a function', typeof client[lower(name)]); continue }
  for (const variant of [0, 1]) for (const defaults of [0, 1, 2]) for (const pda of [false, true]) {
    const input = {}
    let want = c.slots.map(s => [...s])
    for (const s of want) {
      const [n, , sign] = s
      if (defaults === 2 && n in DEFAULTS) s[1] = to58(new Uint8Array(32).fill(66 + n.length))
      else if (defaults && n in DEFAULTS) { if (n === 'payer') s[1] = CONTEXT_PAYER; continue }
      input[n] = sign ? signer(s[1]) : pda ? [s[1], 254] : s[1]
    }
    for (const [n, ty, v] of c.args) { const w = written(ty, v); input[n] = w[variant % w.length] }
    const t = attempt(JS, name, () => client[lower(name)](context, input))
    if (!t) continue
    attempt(JS, `${name}, what it builds`, () => {
      eq(JS, `${name}, number of instructions`, 1, t.items.length)
      const { instruction, signers } = t.items[0]
      eq(JS, `${name}, program`, cases.program, instruction.programId)
      eq(JS, `${name}, data`, c.data, hex(instruction.data))
      eq(JS, `${name}, accounts [address, signer, writable]`, want.map(([, k, s, w]) => [k, s, w]),
        instruction.keys.map(k => [k.pubkey, k.isSigner, k.isWritable]))
      eq(JS, `${name}, signers`, want.filter(s => s[2]).map(s => s[1]).sort(), signers.map(s => s.publicKey).sort())
    })
  }
  const f = client[`get${name}InstructionDataSerializer`]
  attempt(JS, `${name}, data read back`, () => {
    const [v, end] = f().deserialize(unhex(c.data))
    eq(JS, `${name}, length of the data`, c.data.length / 2, end)
    eq(JS, `${name}, number`, c.tag, v.discriminator)
    for (const [n, ty, h] of c.args) {
      const w = written(ty, h)
      eq(JS, `${name}, ${n} read back`, ty === 'option<u64>' ? w[1] : h === '00' && ty === 'option<u64>' ? w[1] : ty === 'option<u64>' ? w[1] : w[0], v[n])
    }
  })
}
for (const n of asked) if (!['mplxRewards', 'splToken', 'splSystem'].includes(n)) eq(JS, 'program asked for', 'mplxRewards, splToken or splSystem', n)

function decoded(n, h) {
  const b = unhex(h)
  if (n === 'data') return Array.from(b)
  if (b.length === 1) return b[0]
  if (b.length === 32) return to58(b)
  return le(h)
}
const pending = []
for (const a of cases.accounts) {
  const bytes = unhex(a.bytes), get = p => client[p.replace('#', a.what)]
  const pk = to58(new Uint8Array(32).fill(9))
  const raw = { exists: true, publicKey: pk, data: concat([bytes, new Uint8Array(500)]), owner: cases.program, executable: false, lamports: 1 }
  const want = Object.fromEntries(a.fields.map(([n, h]) => [n, decoded(n, h)]))
  const same = (how, got) => {
    eq(JS, `${a.what}, ${how}: address`, pk, got.publicKey)
    for (const n in want) eq(JS, `${a.what}.${n}, ${how}`, want[n], got[n])
  }
  attempt(JS, `${a.what} decodes`, () => same('decoded', get('deserialize#')(raw)))
  attempt(JS, `${a.what} encodes`, () => eq(JS, `${a.what}, encoded`, a.bytes, hex(get('get#AccountDataSerializer')().serialize(want))))
  attempt(JS, `size of ${a.what}`, () => eq(JS, `size of ${a.what}`, bytes.length, get('get#Size')()))
  attempt(JS, `search for ${a.what}`, () => {
    const g = get('get#GpaBuilder')(context)
    eq(JS, `search for ${a.what}: program`, cases.program, g.programId)
    eq(JS, `search for ${a.what}: fields`, Object.keys(want), Object.keys(g.fields))
    let at = 0
    for (const [n, h] of a.fields) {
      const [off, s] = g.fields[n]
      eq(JS, `search for ${a.what}: where ${n} is`, at, off)
      eq(JS, `search for ${a.what}: ${n}`, h, hex(s.serialize(want[n])))
      at += h.length / 2
    }
    same('found', g.decode(raw))
  })
  const rpc = { getAccount: async k => k === pk ? raw : { exists: false }, getAccounts: async l => l.map(k => k === pk ? raw : { exists: false, publicKey: k }) }
  pending.push((async () => {
    const other = to58(new Uint8Array(32).fill(8))
    try {
      same('fetched', await get('fetch#')({ rpc }, pk))
      same('fetched', await get('safeFetch#')({ rpc }, [pk, 255]))
      eq(JS, `${a.what} that is not there`, null, await get('safeFetch#')({ rpc }, other))
      eq(JS, `${a.what} that is not there`, 'refused', await get('fetch#')({ rpc }, other).then(() => 'fetched', () => 'refused'))
      const all = await get('fetchAll#')({ rpc }, [pk, pk]), some = await get('safeFetchAll#')({ rpc }, [other, pk])
      eq(JS, `${a.what}, several`, [2, 1], [all.length, some.length])
      for (const x of [...all, ...some]) same('fetched', x)
    } catch (e) { eq(JS, `${a.what} is fetched`, 'fine', String(e)) }
  })())
}

attempt(JS, 'enumerations', () => {
  for (const [n, variants] of [['LockupPeriod', LOCK], ['AccountType', cases.facts.accountTypes]]) {
    const s = client[`get${n}Serializer`]()
    variants.forEach((v, i) => {
      eq(JS, `${n}.${v}`, i, client[n][v])
      eq(JS, `${n}.${v}, encoded`, hex([i]), hex(s.serialize(client[n][v])))
      eq(JS, `${n}.${v}, decoded`, client[n][v], s.deserialize(new Uint8Array([i]))[0])
    })
    eq(JS, `variants of ${n}`, variants.length, Object.keys(client[n]).filter(k => Number.isNaN(Number(k))).length)
  }
})
attempt(JS, 'errors', () => {
  const program = client.createMplxRewardsProgram()
  const known = new Map(cases.errors.map(e => [e[0], e]))
  for (let i = 0; i < 64; i++) {
    const e = client.getMplxRewardsErrorFromCode(i, program), w = known.get(i)
    const show = e => e && [e.code, e.name, e.message, e.program === program]
    const want = w ? [w[0], w[1], w[2], true] : null
    eq(JS, `error ${i}`, want, show(e))
    eq(JS, `error ${i}, by the program`, want, show(program.getErrorFromCode(i)))
    if (w) {
      eq(JS, `error ${w[1]}`, want, show(client.getMplxRewardsErrorFromName(w[1], program)))
      eq(JS, `error ${w[1]}, by the program`, want, show(program.getErrorFromName(w[1])))
    }
  }
  eq(JS, 'error by no name', null, client.getMplxRewardsErrorFromName('NoSuchError', program))
  eq(JS, 'address of the program', [cases.program, cases.program, cases.program],
    [program.publicKey, client.MPLX_REWARDS_PROGRAM_ID, client.getMplxRewardsProgramId(context)])
  const added = []
  client.Rewards().install({ programs: { add: (p, o) => added.push(p) } })
  eq(JS, 'what the plugin installs', [[program.name, cases.program]], added.map(p => [p.name, p.publicKey]))
})

// What the client's types let a caller pass: a signer is asked for exactly where
// the program wants a signature.
;(() => {
  const names = [...new Set(cases.instructions.map(c => c.name))].sort()
  const byName = Object.fromEntries(cases.instructions.map(c => [c.name, c]))
  const lines = [`import * as c from '${SRC}/index'`, `import { PublicKey, Pda, Signer } from '@metaplex-foundation/umi'`]
  for (const n of names) for (const s of byName[n].slots) {
    const t = `NonNullable<c.${n}InstructionAccounts['${s[0]}']>`
    lines.push(`export const ${n}_${s[0]}: [PublicKey extends ${t} ? 1 : 0, Pda extends ${t} ? 1 : 0, Signer extends ${t} ? 1 : 0] = null as any`)
  }
  // and of arguments and of what is decoded
  const TAKES = { u64: [['number', 1], ['bigint', 1], ['string', 0]], publicKey: [['PublicKey', 1], ['number', 0]], LockupPeriod: [['c.LockupPeriod.Flex', 1], ['string', 0]] }
  const extra = []
  const ask = (v, t, l, what) => {
    lines.push(`export const ${v}: [${l.map(([x]) => `${x} extends ${t} ? 1 : 0`).join(', ')}] = null as any`)
    extra.push([v, what, `[${l.map(x => x[1]).join(', ')}]`])
  }
  for (const n of names) for (const [a, ty] of byName[n].args) if (TAKES[ty])
    ask(`${n}_arg_${a}`, `c.${n}InstructionArgs['${a}']`, TAKES[ty], `${n}, ${a} may be a ${TAKES[ty].map(x => x[0]).join(', a ')}`)
  for (const a of Object.values(Object.fromEntries(cases.accounts.map(a => [a.what, a])))) for (const [n, h] of a.fields) if (h.length === 16 || h.length === 64) {
    const t = h.length === 64 ? 'PublicKey' : 'bigint', o = h.length === 64 ? 'bigint' : 'PublicKey'
    ask(`${a.what}_is_${n}`, `c.${a.what}['${n}']`, [[t, 1], [o, 0]], `${a.what}.${n} is a ${t}, not a ${o}`)
  }
  const STUB = `export type PublicKey<T extends string = string> = T & { readonly __publicKey: unique symbol }
    export type Pda<T extends string = string, B extends number = number> = [PublicKey<T>, B] & { readonly __pda: unique symbol }
    export interface Signer { publicKey: PublicKey; signMessage(m: Uint8Array): Promise<Uint8Array> }
    export type Context = any; export type Option<T> = any; export type OptionOrNullable<T> = any
    export type TransactionBuilder = any; export declare const transactionBuilder: any
    export type Account<T> = T & { publicKey: PublicKey; header: any }; export type RpcAccount = any; export type RpcGetAccountOptions = any
    export type RpcGetAccountsOptions = any; export declare const assertAccountExists: any; export declare const deserializeAccount: any
    export declare const gpaBuilder: any; export declare const publicKey: any; export declare const isSigner: any; export declare const isPda: any
    export type AccountMeta = any; export type Program = any; export type ClusterFilter = any; export type UmiPlugin = any
    export declare class ProgramError extends Error { constructor(m: string, p: any, c?: Error) }`
  const opts = { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10, strict: true,
    noEmit: true, skipLibCheck: true, types: [], lib: ['lib.es2020.d.ts'], ignoreDeprecations: '6.0' }
  const virtual = { '/virtual/probe.ts': lines.join('\n'), '/virtual/umi.d.ts': STUB, '/virtual/ser.d.ts': '' }
  const host = ts.createCompilerHost(opts)
  const { getSourceFile, readFile, fileExists } = host
  host.fileExists = f => f in virtual || fileExists.call(host, f)
  host.readFile = f => f in virtual ? virtual[f] : readFile.call(host, f)
  host.getSourceFile = (f, l) => f in virtual ? ts.createSourceFile(f, virtual[f], l) : getSourceFile.call(host, f, l)
  host.resolveModuleNames = (ms, from) => ms.map(m =>
    m === '@metaplex-foundation/umi' ? { resolvedFileName: '/virtual/umi.d.ts' } :
    m === '@metaplex-foundation/umi/serializers' ? undefined : ts.resolveModuleName(m, from, opts, host).resolvedModule)
  const prog = ts.createProgram(['/virtual/probe.ts'], opts, host), checker = prog.getTypeChecker()
  const sf = prog.getSourceFile('/virtual/probe.ts')
  const got = {}
  sf.forEachChild(st => {
    if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) got[d.name.text] = checker.typeToString(checker.getTypeAtLocation(d))
  })
  for (const n of names) for (const s of byName[n].slots)
    eq(JS, `${n}, ${s[0]} may be an address, a derived address, a signer`, s[2] ? '[0, 0, 1]' : '[1, 1, 0]', got[`${n}_${s[0]}`])
  for (const [v, what, want] of extra) eq(JS, what, want, got[v])
})()

// ------------------------------------------------------- published description
const IDL = 'interface description'
const idl = attempt(IDL, 'it parses', () => JSON.parse(fs.readFileSync(repo + '/idls/mplx_rewards.json', 'utf8')))
if (idl) attempt(IDL, 'it is well formed', () => {
  const enums = Object.fromEntries(idl.types.filter(t => t.type.kind === 'enum').map(t => [t.name, t.type.variants.map(v => v.name)]))
  const tname = t => typeof t === 'string' ? t : t.defined ? t.defined : t.option ? `option<${tname(t.option)}>` : JSON.stringify(t)
  const LEN = { u8: 1, u16: 2, u32: 4, u64: 8, u128: 16, i64: 8, i128: 16, publicKey: 32, bool: 1 }
  const len = t => typeof t === 'string' ? LEN[t] : t.array ? len(t.array[0]) * t.array[1] : NaN
  eq(IDL, 'instructions', [...new Set(cases.instructions.map(c => c.name))].sort(), idl.instructions.map(i => i.name).sort())
  for (const c of cases.instructions) {
    const i = idl.instructions.find(i => i.name === c.name)
    if (!i) continue
    eq(IDL, `${c.name}, number`, { type: 'u8', value: c.tag }, { type: i.discriminant.type, value: i.discriminant.value })
    eq(IDL, `${c.name}, arguments`, c.args.map(a => [a[0], a[1]]), i.args.map(a => [a.name, tname(a.type)]))
    eq(IDL, `${c.name}, accounts [name, signer, writable, optional]`, c.slots.map(s => [s[0], s[2], s[3], false]),
      i.accounts.map(a => [a.name, a.isSigner, a.isMut, !!(a.isOptional || a.optional)]))
  }
  for (const a of cases.accounts) {
    const d = idl.accounts.find(x => x.name === a.what)
    eq(IDL, `${a.what}, fields [name, length]`, a.fields.map(([n, h]) => [n, h.length / 2]), d && d.type.fields.map(f => [f.name, len(f.type)]))
    eq(IDL, `${a.what}, keys`, a.fields.filter(([, h]) => h.length === 64).map(f => f[0]), d && d.type.fields.filter(f => f.type === 'publicKey').map(f => f.name))
  }
  eq(IDL, 'accounts', [...new Set(cases.accounts.map(c => c.what))].sort(), idl.accounts.map(i => i.name).sort())
  eq(IDL, 'LockupPeriod', LOCK, enums.LockupPeriod)
  eq(IDL, 'AccountType', cases.facts.accountTypes, enums.AccountType)
  eq(IDL, 'errors', cases.errors, idl.errors.map(e => [e.code, e.name, e.msg]))
  eq(IDL, 'address of the program', cases.program, idl.metadata.address)
})

Promise.all(pending).then(() => console.log(JSON.stringify({ compared, discrepancies: said.size })))
