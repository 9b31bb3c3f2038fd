package main

import (
	"time"

	"verifsim/simrt"
)

// shrink looks for a smaller scenario that still shows a violation of the same class.
func shrink(sc *Scenario, class string, budget time.Duration) (*Scenario, int) {
	deadline := time.Now().Add(budget)
	runs := 0
	bad := func(c *Scenario) bool {
		if time.Now().After(deadline) {
			return false
		}
		runs++
		r := RunScenario(c, false)
		return r.hasClass([]string{class}) != nil
	}
	cur := sc.clone()
	try := func(f func(c *Scenario) bool) bool {
		c := cur.clone()
		if !f(c) {
			return false
		}
		if bad(c) {
			cur = c
			return true
		}
		return false
	}
	for pass := 0; pass < 6 && time.Now().Before(deadline); pass++ {
		any := false
		t := func(f func(c *Scenario) bool) {
			if try(f) {
				any = true
			}
		}
		for i := len(cur.Epochs) - 1; i >= 0; i-- {
			if len(cur.Epochs) < 2 {
				break
			}
			i := i
			t(func(c *Scenario) bool {
				if i >= len(c.Epochs) {
					return false
				}
				c.Epochs = append(c.Epochs[:i], c.Epochs[i+1:]...)
				return true
			})
		}
		for e := range cur.Epochs {
			for i := len(cur.Epochs[e].Clients) - 1; i >= 0; i-- {
				e, i := e, i
				t(func(c *Scenario) bool {
					cl := c.Epochs[e].Clients
					if i >= len(cl) {
						return false
					}
					c.Epochs[e].Clients = append(cl[:i], cl[i+1:]...)
					return true
				})
			}
			for i := len(cur.Epochs[e].Faults) - 1; i >= 0; i-- {
				e, i := e, i
				t(func(c *Scenario) bool {
					fl := c.Epochs[e].Faults
					if i >= len(fl) {
						return false
					}
					c.Epochs[e].Faults = append(fl[:i], fl[i+1:]...)
					return true
				})
			}
		}
		// operations, in chunks
		for e := range cur.Epochs {
			for ci := range cur.Epochs[e].Clients {
				for n := len(cur.Epochs[e].Clients[ci].Ops) / 2; n >= 1; n /= 2 {
					for at := 0; at < len(cur.Epochs[e].Clients[ci].Ops); {
						e, ci, at0, n := e, ci, at, n
						if !try(func(c *Scenario) bool {
							o := c.Epochs[e].Clients[ci].Ops
							if at0 >= len(o) {
								return false
							}
							end := at0 + n
							if end > len(o) {
								end = len(o)
							}
							c.Epochs[e].Clients[ci].Ops = append(o[:at0:at0], o[end:]...)
							return true
						}) {
							at += n
						} else {
							any = true
						}
						if time.Now().After(deadline) {
							return cur, runs
						}
					}
				}
			}
		}
		for n := len(cur.AE) / 2; n >= 1; n /= 2 {
			for at := 0; at < len(cur.AE); {
				at0, n := at, n
				if !try(func(c *Scenario) bool {
					end := at0 + n
					if end > len(c.AE) {
						end = len(c.AE)
					}
					c.AE = append(c.AE[:at0:at0], c.AE[end:]...)
					return true
				}) {
					at += n
				} else {
					any = true
				}
			}
		}
		// the environment
		zero := []func(k *simrt.Knobs) bool{
			func(k *simrt.Knobs) bool { b := k.FragP != 0; k.FragP, k.FragMax = 0, 0; return b },
			func(k *simrt.Knobs) bool { b := k.ShortRead != 0; k.ShortRead = 0; return b },
			func(k *simrt.Knobs) bool { b := k.ShortWrite != 0; k.ShortWrite = 0; return b },
			func(k *simrt.Knobs) bool { b := k.Eintr != 0; k.Eintr = 0; return b },
			func(k *simrt.Knobs) bool { b := k.Eagain != 0; k.Eagain = 0; return b },
			func(k *simrt.Knobs) bool { b := k.FileShort != 0; k.FileShort = 0; return b },
			func(k *simrt.Knobs) bool { b := k.RandBias != 0; k.RandBias = 0; return b },
			func(k *simrt.Knobs) bool { b := k.TmpOther; k.TmpOther = false; return b },
			func(k *simrt.Knobs) bool { b := k.EpollShuffle; k.EpollShuffle = false; return b },
			func(k *simrt.Knobs) bool { b := k.PreemptMean != 0; k.PreemptMean = 0; return b },
			func(k *simrt.Knobs) bool { b := k.SndBuf != 0; k.SndBuf = 0; return b },
			func(k *simrt.Knobs) bool { b := k.DrainMax != 0; k.DrainMax = 0; return b },
			func(k *simrt.Knobs) bool { b := k.FdShort != 0; k.FdShort = 0; return b },
			func(k *simrt.Knobs) bool { b := k.Desched != 0; k.Desched = 0; return b },
			func(k *simrt.Knobs) bool { b := k.StrictNames; k.StrictNames = false; return b },
			func(k *simrt.Knobs) bool { b := k.FlushTx; k.FlushTx = false; return b },
		}
		for _, z := range zero {
			z := z
			t(func(c *Scenario) bool { return z(&c.K) })
		}
		t(func(c *Scenario) bool { b := c.Cfg.Pct != 0; c.Cfg.Pct = 0; return b && !c.has("size") })
		t(func(c *Scenario) bool { b := c.Case != ""; c.Case = ""; return b })
		t(func(c *Scenario) bool { b := len(c.DumpDB) > 1; c.DumpDB = []int{0}; return b })
		for e := range cur.Epochs {
			e := e
			t(func(c *Scenario) bool { b := c.Epochs[e].IdleMs != 0; c.Epochs[e].IdleMs = 0; return b })
			t(func(c *Scenario) bool { b := c.Epochs[e].StopUs != 0; c.Epochs[e].StopUs = 0; return b })
			t(func(c *Scenario) bool { b := c.Epochs[e].DownMs != 0; c.Epochs[e].DownMs = 0; return b })
			for i := len(cur.Epochs[e].Edits) - 1; i >= 0; i-- {
				i := i
				t(func(c *Scenario) bool {
					l := c.Epochs[e].Edits
					if i >= len(l) {
						return false
					}
					c.Epochs[e].Edits = append(l[:i:i], l[i+1:]...)
					return true
				})
			}
			t(func(c *Scenario) bool { b := c.Epochs[e].DumpEnd; c.Epochs[e].DumpEnd = false; return b })
			for ci := range cur.Epochs[e].Clients {
				ci := ci
				t(func(c *Scenario) bool {
					cl := &c.Epochs[e].Clients[ci]
					b := cl.StartUs != 0
					cl.StartUs = 0
					return b
				})
				t(func(c *Scenario) bool {
					b := false
					for i := range c.Epochs[e].Clients[ci].Ops {
						o := &c.Epochs[e].Clients[ci].Ops[i]
						b = b || o.Us != 0
						o.Us = 0
					}
					return b
				})
				if len(cur.Epochs[e].Clients[ci].Ops) > 30 {
					continue
				}
				for i := range cur.Epochs[e].Clients[ci].Ops {
					i := i
					t(func(c *Scenario) bool {
						o := &c.Epochs[e].Clients[ci].Ops[i]
						b := o.Us != 0
						o.Us = 0
						return b
					})
					for ai := len(cur.Epochs[e].Clients[ci].Ops[i].A) - 1; ai >= 1; ai-- {
						ai := ai
						t(func(c *Scenario) bool {
							o := &c.Epochs[e].Clients[ci].Ops[i]
							if ai >= len(o.A) || len(o.A[ai]) < 9 {
								return false
							}
							o.A[ai] = o.A[ai][:len(o.A[ai])/2]
							return true
						})
						switch string(cur.Epochs[e].Clients[ci].Ops[i].A[0]) {
						case "rpush", "lpush", "sadd", "srem", "hdel", "zrem":
							t(func(c *Scenario) bool {
								o := &c.Epochs[e].Clients[ci].Ops[i]
								if len(o.A) <= 3 || ai < 2 || ai >= len(o.A) {
									return false
								}
								o.A = append(o.A[:ai:ai], o.A[ai+1:]...)
								return true
							})
						}
						if len(cur.Epochs[e].Clients[ci].Ops[i].A) > 24 {
							break
						}
					}
				}
			}
			for fi := range cur.Epochs[e].Faults {
				fi := fi
				t(func(c *Scenario) bool {
					f := c.Epochs[e].Faults[fi]
					if f.Nth < 2 {
						return false
					}
					f.Nth /= 2
					return true
				})
				t(func(c *Scenario) bool {
					f := c.Epochs[e].Faults[fi]
					b := f.Len > 1
					f.Len = 0
					return b
				})
			}
		}
		if !any {
			break
		}
	}
	return cur, runs
}
