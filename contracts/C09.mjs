// C09: hooks keep their slots, values and identity.
import { hookOpts, renderOpts, areDependenciesChanged, ensureHookType, useMemo, useEffect, useId, nextIdentifier, useCallback, useRef, finalizeContext, objectFreeze, componentRender } from './lib-component.mjs';
export default {
  property: 'C09',
  units: [
    {
      opts: hookOpts,
      contracts: {
        areDependenciesChanged, ensureHookType, '*.nextIdentifier': nextIdentifier,
        'RenderContext.useMemo': useMemo,
        'RenderContext.useEffect': useEffect,
        'RenderContext.useId': useId,
      },
    },
    {
      // (useMemo is inlined)
      opts: hookOpts,
      contracts: {
        areDependenciesChanged, ensureHookType: { ...ensureHookType, assumed: 'proved above' },
        'RenderContext.useCallback': useCallback,
        'RenderContext.useRef': useRef,
      },
    },
    {
      opts: renderOpts,
      contracts: {
        ensureHookType: { ...ensureHookType, assumed: 'proved above' }, 'ext Object.freeze': objectFreeze,
        finalizeContext,
        'FunctionComponent.render': componentRender,
        wrap: { assumed: 'proved with C27', params: ['v'], paramTypes: { v: 'Val' }, returns: 'Ref', allocates: true, ensures: { a: 'result === wrapped(v)' } },
        'ext RenderError.withScope': { assumed: 'makes an error', params: ['scope', 'm', 'o'], returns: 'Ref!', allocates: true },
      },
    },
  ],
};
