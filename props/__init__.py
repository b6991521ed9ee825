from . import batchprops, relprop, globprop, absprop, streamprop
REGISTRY = {}
REGISTRY.update(batchprops.CHECKS)
REGISTRY.update(relprop.CHECKS)
REGISTRY.update(globprop.CHECKS)
REGISTRY.update(absprop.CHECKS)
REGISTRY.update(streamprop.CHECKS)
