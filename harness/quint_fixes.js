// Preloaded into the Quint simulator (NODE_OPTIONS=--require): two corrections.
//
// 1.
// Quint 0.32's simulator keeps one register per operator parameter and does not
// restore it when a call returns, so a user-defined higher-order operator that
// is re-entered from the function it was given (tab(n, i => tab(m, j => ...)))
// sees the inner call's parameters.  The language is lexically scoped; saving
// and restoring the registers around each call gives the simulator exactly that.
const Module = require('module')
const load = Module._load
Module._load = function (request, parent, isMain) {
  const m = load.apply(this, arguments)
  if (/runtimeValue(\.js)?$/.test(request) && m && m.RuntimeValueLambda && !m.__reentrant) {
    Object.defineProperty(m, '__reentrant', { value: true })
    m.RuntimeValueLambda.prototype.toArrow = function () {
      const registers = this.registers
      const body = this.body
      const n = registers.length
      return (ctx, args) => {
        if (n !== args.length) throw new Error('operator called with ' + args.length + ' arguments instead of ' + n)
        const saved = new Array(n)
        for (let i = 0; i < n; i++) {
          const r = registers[i]
          saved[i] = r.value
          r.value = rightOf(args[i])
        }
        const result = body(ctx)
        for (let i = 0; i < n; i++) registers[i].value = saved[i]
        return result
      }
    }
  }
  // A run that ends because no action is enabled is stored twice, which pushes
  // half of the shorter behaviours out of the list that is written: store it once.
  if (/trace(\.js)?$/.test(request) && m && typeof m.newTraceRecorder === 'function' && !m.__once) {
    Object.defineProperty(m, '__once', { value: true })
    const make = m.newTraceRecorder
    m.newTraceRecorder = (...args) => {
      const rec = make(...args)
      let stored = false
      const call = rec.onRunCall.bind(rec)
      const ret = rec.onRunReturn.bind(rec)
      rec.onRunCall = () => { stored = false; return call() }
      rec.onRunReturn = (outcome, trace) => {
        if (stored) return
        stored = true
        return ret(outcome, trace)
      }
      return rec
    }
  }
  return m
}
const { right } = require('/opt/veriftools/quint/node_modules/@sweet-monads/either')
function rightOf(v) { return right(v) }
