// C28: the host adapter.
import { hostGhosts, hostContracts, resolveCall } from './lib-host.mjs';
const CONT = ['drag', 'dragenter', 'dragleave', 'dragover', 'mouseenter', 'mouseleave', 'mousemove', 'mouseout', 'mouseover', 'pointerenter', 'pointerleave', 'pointermove', 'pointerout', 'pointerover', 'scroll', 'touchmove', 'wheel'];
const specFns = {
  continuous: { params: ['t'], expr: CONT.map((x) => `t === '${x}'`).join(' || ') },
  isPtr: { smt: 'isPtr', args: ['Ref'], ret: 'Bool' },
  theScheduler: { smt: 'theScheduler', args: [], ret: 'Ref', h: 'Scheduler' },
  hasPostTask: { params: [], expr: "isPtr(theScheduler()) && isPtr(theScheduler().postTask) && isFn(theScheduler().postTask)" },
};
const opts = {
  ghosts: { ...hostGhosts, peer: '(Array Int Int)', posted: 'Int' },
  decls: `(define-fun isPtr ((r Int)) Bool (> r 0))
(declare-fun theScheduler () Int)

`,
  fieldSorts: { defaultView: '?Window', event: '?Event', readyState: 'Str', type: 'Str', priority: 'Val', onmessage: '?Ref', port1: 'MessagePort', port2: 'MessagePort', scheduler: '?Scheduler', postTask: 'Ref' },
  specFns,
};
export default {
  property: 'C28',
  units: [{
    opts,
    contracts: {
      ...hostContracts,
      isContinuousEvent: {
        requires: { 'an event': 'isPtr(event)' },
        ensures: { 'exactly the continuous events': 'result === continuous(event.type)' },
      },
      'DOMAdapter.getTaskPriority': {
        returns: 'Str',
        requires: { 'null is no event': 'this._document.defaultView === null || this._document.defaultView.event !== null', 'no undefined view': 'this._document.defaultView !== undefined' },
        ensures: {
          'during an event': "implies(isPtr(this._document.defaultView) && isPtr(this._document.defaultView.event), result === (continuous(this._document.defaultView.event.type) ? 'user-visible' : 'user-blocking'))",
          'outside events': "implies(!(isPtr(this._document.defaultView) && isPtr(this._document.defaultView.event)), result === (this._document.readyState !== 'complete' ? 'user-blocking' : 'background'))",
        },
      },
      'get window.scheduler': { assumed: 'window.scheduler is the scheduler or missing', get: 'theScheduler()', type: '?Scheduler' },
      'ext scheduler.postTask': {
        assumed: "postTask(f) calls f exactly once, later, and settles with its outcome",
        params: ['f', 'options'], paramTypes: { f: 'Ref!' }, returns: 'Ref!', freshResult: true,
        modifies: ['$scheduled', '$cbOf', '$thenOf'],
        requires: { 'the facility exists': 'hasPostTask()' },
        ensures: { a: '$cbOf === store(old($cbOf), result, f) && $thenOf === store(old($thenOf), result, result) && $scheduled === store(old($scheduled), result, 1)' },
      },
      'new MessageChannel': {
        assumed: 'a message channel has two entangled ports, on which nothing has been posted',
        params: [], returns: 'MessageChannel', freshResult: true, fresh: ['port1', 'port2', 'onmessage'], allocates: true, modifies: ['$peer'],
        ensures: { a: 'isPtr(result.port1) && isPtr(result.port2) && $peer === store(store(old($peer), result.port1, result.port2), result.port2, result.port1) && result.port1 !== result.port2 && fresh(result.port1) && fresh(result.port2)' },
      },
      '*.postMessage': {
        assumed: 'posting on a port calls the onmessage handler of the other port exactly once, later, if it is set by then',
        params: ['m'], modifies: ['$scheduled'], returns: 'Val',
        requires: { 'the other port has a handler': 'isPtr(typed($peer[this], "Ref")) && isPtr(typed($peer[this], "MessagePort").onmessage)' },
        ensures: { a: '$scheduled === store(old($scheduled), typed($peer[this], "MessagePort").onmessage, old($scheduled[typed($peer[this], "MessagePort").onmessage]) + 1)' },
      },
      'DOMAdapter.requestCallback': {
        returns: 'Ref!',
        paramTypes: { callback: 'Ref!', options: '?Options' },
        modifies: ['$promiseOf', '$resolverOf', '$resolved', '$scheduled', '$thenOf', '$cbOf', '$cancelled', '$peer'],
        callbacks: { '*': resolveCall },
        deferred: {},
        ensures: {
          'the callback runs when the promise is resolved': '$cbOf[result] === callback',
          'never synchronously': 'hasPostTask() || !$resolved[$thenOf[result]]',
          'a host facility resolves the promise exactly once': 'hasPostTask() ? $scheduled[result] === 1 : $scheduled[$resolverOf[$thenOf[result]]] === 1',
        },
      },
      'DOMAdapter.requestCommit': {
        returns: 'Ref!',
        callbacks: { '*': resolveCall },
        modifies: ['$promiseOf', '$resolverOf', '$resolved', '$scheduled', '$thenOf', '$cbOf', '$cancelled'],
        requires: { 'a function': 'isPtr(callback)', 'no function resolves a promise yet': 'forall((f: Ref) => $promiseOf[f] === 0 || allocated(typed(f, "Ref")), [$promiseOf[f]])' },
        deferred: {
          frame: { requires: { 'the promise is pending': '!$resolved[$thenOf[outer]]' }, ensures: { 'a frame resolves the promise': '$resolved[$thenOf[outer]]' } },
          timer: { always: true, requires: { 'the promise is pending': '!$resolved[$thenOf[outer]]' }, ensures: { 'the timer resolves the promise': '$resolved[$thenOf[outer]]' } },
        },
        ensures: {
          'the callback runs when the promise is resolved': '$cbOf[result] === callback',
          'never synchronously': '!$resolved[$thenOf[result]]',
        },
      },
    },
  }],
};
