package main

// trials are calls whose failure an operation may outlive: the signature did
// not verify with one of several keys.
var trials = map[string]bool{
	"(github.com/go-jose/go-jose/v4.JSONWebSignature).Verify":      true,
	"(*github.com/go-jose/go-jose/v4.JSONWebSignature).Verify":     true,
	"(*github.com/go-jose/go-jose/v4/jwt.JSONWebToken).Claims":     true,
	"(github.com/go-jose/go-jose/v4.JSONWebSignature).VerifyMulti": true,
}

func init() {
	register("C63", "no operation succeeds after a failed step", "The error results of the calls on every abstract path of every exported operation are collected; on a success all are known to be nil.", func(c *Ctx) {
		notFound := mkT(nil, "gval", modPath+"/server/storage.ErrNotFound")
		steps := map[string]bool{}
		for _, x := range entries(c) {
			if x.method == "()" {
				continue // configuration values, which call nothing fallible
			}
			name := x.pkg + "." + x.ctor
			if x.method != "" {
				name += "->" + x.method
			}
			var r *Root
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(analysisError); !ok {
							panic(p)
						}
						c.need(false, "analysed", name, "-", "%v", p)
					}
				}()
				r = c.rootWith(x.pkg, x.ctor, x.method, nil, nil, func(e *Engine) {
					e.TrackErrs = true
					e.OnErr = func(callee, pos string) { steps[callee+" at "+pos] = true }
				})
			}()
			if r == nil {
				continue
			}
			rs := r.Fn.Signature.Results()
			last := rs.Len() - 1
			fallible := last >= 0 && rs.At(last).Type().String() == "error"
			for _, o := range r.Outs {
				st, pos := o.st, outPos(r, o)
				if fallible && st.facts.eval(mkEq(o.res[last], tNil)) == -1 {
					continue
				}
				st.pruneErrs()
				for e, callee := range st.errs {
					if fallible && (e == o.res[last] || same(st, e, o.res[last])) {
						continue // its error is the error of the operation
					}
					construct := name + " calling " + short(callee)
					switch {
					case !nonNil(st, e):
						c.need(false, "examined", construct, pos, "the operation completes without looking at the error of a call")
					case !fallible, trials[callee]:
						// the failure is an answer
					case x.method == "Introspect" && same(st, e, notFound):
						// an unknown token is reported as inactive
					default:
						c.need(false, "failed", construct, pos, "the operation succeeds although a call failed")
					}
				}
				c.need(true, "success", name, pos, "")
			}
		}
		for s := range steps {
			c.need(true, "step", s, "-", "")
		}
		c.floor("success", 100, "successful outcomes")
		c.floor("step", 150, "fallible calls")
	})
}
