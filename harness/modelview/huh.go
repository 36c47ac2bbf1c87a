package modelview

import "charm.land/huh/v2"

var plain huh.Styles

// Forms are updated as they are; how they look is left out.
//
//zz:replace charm.land/huh/v2.ThemeCharm charm.land/huh/v2.ThemeBase
func theme(dark bool) *huh.Styles { return &plain }

//zz:replace (*charm.land/huh/v2.Group).getContent
func getContent(g *huh.Group) (int, string) { return 0, "x" }

//zz:replace (*charm.land/huh/v2.Group).Footer (*charm.land/huh/v2.Group).Header
func footer(g *huh.Group) string { return "" }

//zz:replace (*charm.land/huh/v2.Select[string]).updateViewportSize (*charm.land/huh/v2.Select[string]).ensureCursorVisible
func sizeSelect(s *huh.Select[string]) {}

//zz:replace (*charm.land/huh/v2.MultiSelect[string]).updateViewportSize (*charm.land/huh/v2.MultiSelect[string]).ensureCursorVisible
func sizeMulti(s *huh.MultiSelect[string]) {}

//zz:replace (*charm.land/huh/v2.Select[string]).View
func viewSelect(s *huh.Select[string]) string { return "x" }

//zz:replace (*charm.land/huh/v2.MultiSelect[string]).View
func viewMulti(s *huh.MultiSelect[string]) string { return "x" }

//zz:replace (*charm.land/huh/v2.Confirm).View
func viewConfirm(s *huh.Confirm) string { return "x" }

//zz:replace (*charm.land/huh/v2.Input).View
func viewInput(s *huh.Input) string { return "x" }
