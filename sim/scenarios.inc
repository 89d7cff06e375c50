SC(net) SC(transport) SC(noop) SC(sign) SC(fallback) SC(store) SC(pbuf) SC(oom) SC(rand) SC(entropy) SC(obj) SC(tools) SC(conc) SC(echo) SC(edit) SC(gen) SC(protoc)
