//gov:pkg clipboard
package clipboard_test

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/phoenix-tui/phoenix/clipboard"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/model"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/service"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
)

type gProv struct {
	name                string
	avail, rfail, wfail bool
	reads, writes       int
	held                []byte
	calls               *[]string
}

func (p *gProv) Read() (*model.ClipboardContent, error) {
	p.reads++
	if p.rfail {
		return nil, errors.New("read fails")
	}
	return model.NewTextContent(string(p.held))
}
func (p *gProv) Write(c *model.ClipboardContent) error {
	p.writes++
	if p.wfail {
		return errors.New("write fails")
	}
	p.held = c.Data()
	for i, d := 0, c.Data(); i < len(d); i++ { // handed out bytes are copies
		d[i] = 0
	}
	return nil
}
func (p *gProv) IsAvailable() bool { return p.avail }
func (p *gProv) Name() string      { return p.name }

func TestGovProviders(t *testing.T) {
	rnd := govRand()
	cases := govN(4000, 100000)
	for k := 0; k < cases; k++ {
		b := clipboard.NewBuilder().WithOSC52(false).WithNative(false)
		var ps []*gProv
		var desc []string
		for i := rnd.Intn(5); i > 0; i-- {
			p := &gProv{name: fmt.Sprint("p", i), avail: rnd.Intn(2) == 0, rfail: rnd.Intn(4) == 0, wfail: rnd.Intn(3) == 0, held: []byte(fmt.Sprint("old", i))}
			ps = append(ps, p)
			b = b.WithProvider(p)
			desc = append(desc, fmt.Sprintf("%s(avail=%v,rfail=%v,wfail=%v)", p.name, p.avail, p.rfail, p.wfail))
		}
		ctx := strings.Join(desc, " ")
		c, err := b.Build()
		if (err == nil) != (len(ps) > 0) {
			govFail(t, "Build with providers [%s]: %v", ctx, err)
		}
		if err != nil {
			continue
		}
		maxH := rnd.Intn(3)
		hist := rnd.Intn(3) > 0
		if hist {
			c.EnableHistory(maxH, 0)
		}
		var recorded []string
		for step := 0; step < 6; step++ {
			var first *gProv
			for _, p := range ps {
				if rnd.Intn(5) == 0 {
					p.avail = !p.avail
				}
			}
			desc = desc[:0]
			for _, p := range ps {
				desc = append(desc, fmt.Sprintf("%s(avail=%v,rfail=%v,wfail=%v)", p.name, p.avail, p.rfail, p.wfail))
				if p.avail && first == nil {
					first = p
				}
			}
			ctx = strings.Join(desc, " ")
			name := "none"
			if first != nil {
				name = first.name
			}
			if c.IsAvailable() != (first != nil) || c.GetProviderName() != name {
				govFail(t, "[%s]: available %v, provider %q", ctx, c.IsAvailable(), c.GetProviderName())
			}
			before := make([]int, len(ps))
			for i, p := range ps {
				before[i] = p.reads*1000 + p.writes
			}
			text := []string{"", "hello", "a\x00b\xff", "日本語 👩‍🚀\r\n", strings.Repeat("x", 3000)}[rnd.Intn(5)]
			var want error
			switch {
			case text == "":
				want = errors.New("empty")
			case first == nil:
				want = errors.New("none")
			case first.wfail:
				want = errors.New("write fails")
			}
			var err error
			mime := "text/plain"
			switch rnd.Intn(4) {
			case 0:
				mime = "text/html"
				err = c.WriteHTML(text)
			case 1:
				mime = "text/rtf"
				err = c.WriteRTF(text)
			default:
				err = c.Write(text)
			}
			if (err == nil) != (want == nil) {
				govFail(t, "[%s]: writing %q gives %v, want %v", ctx, text, err, want)
			}
			for i, p := range ps {
				w := before[i]
				if p == first && text != "" {
					w++
				}
				if p.reads*1000+p.writes != w {
					govFail(t, "[%s]: writing %q called provider %s", ctx, text, p.name)
				}
			}
			if err == nil && (first == nil || string(first.held) != text) {
				govFail(t, "[%s]: writing %q did not deliver it to the first available provider", ctx, text)
			}
			if err == nil && hist {
				recorded = append(recorded, mime+":"+text)
				if maxH > 0 && len(recorded) > maxH {
					recorded = recorded[1:]
				}
			}
			var got []string
			all := c.GetHistory()
			for i := range all { // a coarse clock leaves the order of equal times open
				if i > 0 && all[i].Timestamp.Equal(all[i-1].Timestamp) {
					return
				}
			}
			for _, e := range all {
				got = append([]string{e.MIMEType + ":" + string(e.Content)}, got...)
			}
			if fmt.Sprint(got) != fmt.Sprint(recorded) {
				govFail(t, "[%s]: after writing %q (error %v) the history (max %d) is %q, want %q", ctx, text, err, maxH, got, recorded)
			}
			r, err := c.Read()
			switch {
			case first == nil || first.rfail:
				if err == nil {
					govFail(t, "[%s]: Read succeeds with %q", ctx, r)
				}
			case err != nil || r != string(first.held):
				govFail(t, "[%s]: Read gives %q, %v; the first available provider holds %q", ctx, r, err, first.held)
			}
			if govFails > 5 {
				return
			}
		}
	}
	govCases(cases, "provider chains")
}

func TestGovContent(t *testing.T) {
	rnd := govRand()
	n := govN(2000, 50000)
	for k := 0; k < n; k++ {
		d := make([]byte, rnd.Intn(9))
		for i := range d {
			d[i] = byte(rnd.Intn(256))
		}
		mt := []value.MIMEType{value.MIMETypePlainText, value.MIMETypeHTML, value.MIMETypeBinary, value.MIMETypeImagePNG}[rnd.Intn(4)]
		c, err := model.NewClipboardContent(append([]byte(nil), d...), mt, value.EncodingUTF8)
		if (err == nil) != (len(d) > 0) {
			govFail(t, "NewClipboardContent(%q): %v", d, err)
		}
		if err != nil {
			continue
		}
		for _, x := range []*model.ClipboardContent{c, c.WithEncoding(value.EncodingBinary), c.WithMIMEType(value.MIMETypeHTML)} {
			b := x.Data()
			if !bytes.Equal(b, d) {
				govFail(t, "content of %q reads as %q", d, b)
			}
			for i := range b {
				b[i] = ^b[i]
			}
			if !bytes.Equal(c.Data(), d) || x.Size() != len(d) {
				govFail(t, "changing the bytes handed out changed the content %q to %q", d, c.Data())
			}
		}
		s, err := c.Text()
		if (err == nil) != c.IsText() || (err == nil && s != string(d)) {
			govFail(t, "Text() of %q as %s: %q, %v", d, mt, s, err)
		}
	}
	if _, err := service.NewClipboardService(nil); err == nil {
		govFail(t, "a service without providers is accepted")
	}
	govCases(n, "contents")
}

func TestGovColors(t *testing.T) {
	n := 0
	check := func(r, g, b int) {
		n++
		s, err := value.FormatColorRGB(r, g, b)
		ok := r >= 0 && r < 256 && g >= 0 && g < 256 && b >= 0 && b < 256
		if (err == nil) != ok {
			govFail(t, "FormatColorRGB(%d,%d,%d): %v", r, g, b, err)
			return
		}
		if !ok {
			return
		}
		if w := fmt.Sprintf("#%02X%02X%02X", r, g, b); s != w {
			govFail(t, "FormatColorRGB(%d,%d,%d) = %q, want %q", r, g, b, s, w)
		}
		for _, f := range []string{s, strings.ToLower(s)} {
			r2, g2, b2, err := value.ParseColorRGB(f)
			if err != nil || r2 != r || g2 != g || b2 != b {
				govFail(t, "ParseColorRGB(%q) = %d,%d,%d, %v; want %d,%d,%d", f, r2, g2, b2, err, r, g, b)
			}
		}
	}
	for v := -3; v < 260; v++ {
		for _, w := range []int{0, 1, 9, 10, 15, 16, 127, 128, 255} {
			check(v, w, 255-w)
			check(w, v, 255-w)
			check(255-w, w, v)
		}
	}
	for _, v := range []int{-1 << 40, -256, 256, 1000, 1 << 40} {
		check(v, 0, 0)
		check(0, v, 0)
		check(0, 0, v)
	}
	for _, s := range []string{"", "#", "#12345", "#1234567", "123456", "#12345g", "# 12345", "#12 456", "#+12345", "#0x1234", "#123456\n", "\n#123456", "##123456", "#١٢٣٤٥٦", "#-12345", "#123456 ", "rgb(1,2,3)", "#FFF"} {
		n++
		if r, g, b, err := value.ParseColorRGB(s); err == nil {
			govFail(t, "ParseColorRGB(%q) = %d,%d,%d", s, r, g, b)
		}
		if s != "" {
			if _, err := value.NewTextStylesWithColor(s); err == nil {
				govFail(t, "NewTextStylesWithColor(%q) is accepted", s)
			}
			if _, err := value.NewTextStyles().WithColor(s); err == nil {
				govFail(t, "WithColor(%q) is accepted", s)
			}
		}
	}
	govCases(n, "colours")
}
