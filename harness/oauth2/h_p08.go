package oauth2

// Replaying a used authorization code is refused and at once disables every
// access and refresh token that descends from it, however often the tokens
// were refreshed in between and whoever replays it; tokens of other
// authorizations stay as they were.
// bounds: histories of 1 redemption, 0-3 (thorough: 0-4) intermediate steps out of 7 kinds (refresh with any known refresh token, narrowing refresh, revocation of any token, second authorization and redemption, password grant, clock advance 0-3 s symbolic), then a replay by any of 3 clients and optionally a second replay
// reach: replayed by-stranger after-refresh second-flow
func vfH_P08_replay() {
	m := vfNewModel("P08", "cui")
	n := 3
	if vfThorough() {
		n = 4
	}
	k := m.authorize("c1")
	m.redeem(k, "c1")
	steps := vfChoice("steps", n+1)
	extra := false
	for i := 0; i < steps; i++ {
		switch vfChoice("op", 6) {
		case 0:
			if m.refresh(m.pick("rt", "r"), "c1", "") {
				vfReach("after-refresh")
			}
		case 1:
			m.refresh(m.pick("rt", "r"), "c1", "x")
		case 2:
			m.revoke(m.pick("any", "ar"), "c1", "")
		case 3:
			vfAssume(!extra)
			extra = true
			k2 := m.authorize("c1")
			m.redeem(k2, "c1")
			vfReach("second-flow")
		case 4:
			vfAssume(!extra)
			extra = true
			m.password("c1")
		case 5:
			m.advance(vfInt("dt", 0, 3))
		}
	}
	who := vfChoice("who", 3)
	m.redeem(k, []string{"c1", "c2", "c3"}[who])
	if who > 0 {
		vfReach("by-stranger")
	}
	vfReach("replayed")
	m.probe()
	if vfBool("again") {
		// tokens refreshed from dead refresh tokens must not come back
		m.redeem(k, "c1")
		m.refresh(m.pick("rt", "r"), "c1", "")
		m.probe()
	}
}

// However long the chain of refreshes that descends from a code, replaying
// the code disables all of it, and nothing else.
// bounds: chains of 10, 40 and 110 (thorough: 10, 110 and 260) refreshes, narrowed or not, followed by 0-6 s (symbolic) at the end; a second code and a password grant besides; replay by one of 3 clients
// reach: replayed tried-again
func vfH_P08_long() {
	n := []int{10, 40, 110}[vfChoice("n", 3)]
	if vfThorough() {
		n = []int{10, 110, 260}[vfChoice("n", 3)]
	}
	m := vfNewModel("P08", "cui")
	m.password("c1")
	k2 := m.authorize("c1")
	m.redeem(k2, "c1")
	k := m.authorize("c1")
	m.redeem(k, "c1")
	m.long(n, []int{-1, 0, n - 1}[vfChoice("narrow", 3)], n-1, vfInt("dt", 0, 5))
	m.redeem(k, []string{"c1", "c2", "c3"}[vfChoice("who", 3)])
	vfReach("replayed")
	m.probe()
	var last *vfMTok
	for _, t := range m.toks {
		if t.kind == 'r' && t.root == k {
			last = t
		}
	}
	m.refresh(last, "c1", "")
	vfReach("tried-again")
}
