// C07: component state is the fold of the dispatched actions.
import { reducerOpts, useReducer, getInitialState, useReducerCall, useState, dispatch, schedule, forceUpdate } from './lib-reducer.mjs';
import { ensureHookType } from './lib-component.mjs';
const solve = { order: ['cvc5', 'z3', 'z3nombqi', 'cvc5'], t1: 4, t2: 8, t3: 20 };
export default {
  property: 'C07',
  units: [
    {
      closed: ['dispatch', 'memoizedActions', 'memoizedState', 'skipLanes', 'currentState', 'pendingActions', 'revertLanes', 'eagerState'],
      solve, opts: reducerOpts,
      contracts: {
        ensureHookType: { ...ensureHookType, assumed: 'proved with C09' },
        getInitialState,
        'RenderContext.useReducer': useReducer,
      },
    },
    {
      solve, opts: reducerOpts,
      contracts: {
        ensureHookType: { ...ensureHookType, assumed: 'proved with C09' },
        getInitialState: { ...getInitialState, assumed: 'proved above' },
        '*.schedule': schedule,
        'ext Promise.resolve': { assumed: 'makes a promise', params: [], returns: 'Ref!', allocates: true },
        'RenderContext.forceUpdate': forceUpdate,
        'RenderContext.useReducer dispatch': dispatch,
      },
    },
    {
      solve, opts: reducerOpts,
      contracts: { 'RenderContext.useReducer': useReducerCall, 'RenderContext.useState': useState },
    },
  ],
};
