// Package modelview leaves out what the tabs view scrolls and draws (C27 checks it).
package modelview

import "charm.land/bubbles/v2/viewport"

//zz:replace charm.land/bubbles/v2/viewport.New
func newView(opts ...viewport.Option) (m viewport.Model) { return }

//zz:replace (*charm.land/bubbles/v2/viewport.Model).SetContent
func setContent(m *viewport.Model, s string) {}

//zz:replace (*charm.land/bubbles/v2/viewport.Model).GotoBottom
func gotoBottom(m *viewport.Model) (lines []string) { return nil }

//zz:replace (charm.land/bubbles/v2/viewport.Model).AtBottom
func atBottom(m viewport.Model) bool { return true }
