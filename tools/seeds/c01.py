VP='components/viewport/internal/domain/model/viewport.go'
SS='components/viewport/internal/domain/service/scroll_service.go'
SEEDS=[
dict(id='C01-content-alias', property='C01', module='components', pkg='viewport/internal/domain/model',
 edits=[(VP,'''	newV.content = make([]string, len(content))
	copy(newV.content, content)
''','''	if cap(newV.content) >= len(content) && len(content) > 0 {
		// Reuse the buffer when it is large enough.
		newV.content = newV.content[:len(content)]
	} else {
		newV.content = make([]string, len(content))
	}
	copy(newV.content, content)
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	a := NewViewportWithContent([]string{"a", "b", "c"}, 10, 3)
	b := a.WithContent([]string{"x", "y", "z"})
	_ = b
	if a.Content()[0] != "a" { t.Fatalf("deriving changed the earlier viewport: %v", a.Content()) }
}
''', needs='a second content of no more lines than the first, then looking at the earlier value', breaks='the earlier viewport value shares its content buffer with the derived one'),
dict(id='C01-shrink-window', property='C01', module='components', pkg='viewport/internal/domain/model',
 edits=[(VP,'''	maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), height)
	newV.scrollOffset = newV.scrollOffset.Clamp(maxOffset)
''','''	// The offset can only get out of range when the window grows downwards.
	if newV.size.Width() == v.size.Width() || newV.size.Height() < v.size.Height() {
		maxOffset := newV.scrollSvc.MaxScrollOffset(len(newV.content), height)
		newV.scrollOffset = newV.scrollOffset.Clamp(maxOffset)
	}
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	c := []string{"0","1","2","3","4","5","6","7","8","9"}
	v := NewViewportWithContent(c, 10, 3).WithScrollOffset(7).WithSize(20, 6)
	if v.ScrollOffset() != 4 || len(v.VisibleLines()) != 6 { t.Fatalf("offset %d, %d lines shown", v.ScrollOffset(), len(v.VisibleLines())) }
}
''', needs='scrolled near the bottom, then a resize that changes width and grows the height', breaks='the scroll offset stays beyond the last offset that fills the window'),
dict(id='C01-down-huge', property='C01', module='components', pkg='viewport/internal/domain/model',
 edits=[(VP,'''		if currentWidth+gWidth > width {
			break
		}
''','''		if currentWidth+gWidth > width && gWidth > 0 {
			if currentWidth < width && gWidth > 1 {
				continue // a narrow character may still fit
			}
			break
		}
''')],
 test='''package model
import "testing"
func TestZZDemo(t *testing.T) {
	v := NewViewportWithContent([]string{"ab\\u4e2dcd"}, 3, 1)
	if g := v.VisibleLines(); len(g) != 1 || g[0] != "ab" { t.Fatalf("%q", g) }
}
''', needs='a wide character straddling the right edge of the window', breaks='a character in the middle of the line is dropped and a later one is shown: the row is not a prefix of the content line'),
]
