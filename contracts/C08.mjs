// C08: effects and their cleanups alternate and never outlive the component.
import { effectOpts, areDependenciesChanged, ensureHookType, useEffect, connect, disconnect, updateOpts, updateComponent } from './lib-component.mjs';
import { commitOpts, unmountContracts, afterContracts, phaseOpts, phaseContracts } from './lib-commit.mjs';
export default {
  property: 'C08',
  units: [
    {
      opts: effectOpts,
      contracts: {
        areDependenciesChanged, ensureHookType: { ...ensureHookType, assumed: 'proved with C09' },
        'RenderContext.useEffect': useEffect,
        'FunctionComponent.connect': connect,
        'FunctionComponent.disconnect': disconnect,
      },
    },
    { opts: updateOpts, contracts: updateComponent },
    // every component of a removed tree is disconnected once, every one that is
    // committed anew connected once, after the tree was mounted or patched
    { opts: commitOpts('right'), contracts: unmountContracts },
    { opts: commitOpts('left'), contracts: afterContracts },
    { opts: phaseOpts, contracts: phaseContracts },
  ],
};
