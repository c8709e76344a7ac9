//gov:pkg clipboard
package clipboard_test

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/service"
	"github.com/phoenix-tui/phoenix/clipboard/internal/domain/value"
)

type gEnt struct {
	data string
	mime value.MIMEType
	id   string
}

func TestGovHistory(t *testing.T) {
	rnd := govRand()
	hist := govN(1500, 40000)
	n := 0
	for h := 0; h < hist; h++ {
		max := rnd.Intn(7) - 1
		ch := service.NewClipboardHistory(max, 0)
		if max < 0 {
			max = 0
		}
		var ref []gEnt
		var log []string
		trim := func() {
			if max > 0 && len(ref) > max {
				ref = append([]gEnt(nil), ref[len(ref)-max:]...)
			}
		}
		mimes := []value.MIMEType{value.MIMETypePlainText, value.MIMETypeHTML, value.MIMETypeImagePNG, ""}
		for k := 0; k < 25; k++ {
			n++
			ctx := func() string { return fmt.Sprintf("history of max %d: %s", max, strings.Join(log, "; ")) }
			switch op := rnd.Intn(20); {
			case op < 12:
				buf := make([]byte, rnd.Intn(6))
				for i := range buf {
					buf[i] = byte(rnd.Intn(256))
				}
				mt := mimes[rnd.Intn(len(mimes))]
				if rnd.Intn(3) > 0 {
					mt = mimes[rnd.Intn(3)]
				}
				log = append(log, fmt.Sprintf("Add(%q,%s)", buf, mt))
				want := string(buf)
				err := ch.Add(buf, mt)
				for i := range buf { // the caller may reuse its bytes
					buf[i] ^= 0x55
				}
				if (err == nil) != (want != "" && mt != "") {
					govFail(t, "%s: error %v", ctx(), err)
				}
				if err == nil {
					ref = append(ref, gEnt{data: want, mime: mt})
					trim()
				}
			case op < 15:
				m := rnd.Intn(8) - 1
				log = append(log, fmt.Sprintf("SetMaxSize(%d)", m))
				ch.SetMaxSize(m)
				if max = m; m < 0 {
					max = 0
				}
				trim()
			case op == 15:
				log = append(log, "Clear")
				ch.Clear()
				ref = nil
			case op == 16:
				log = append(log, "RemoveExpired")
				if r := ch.RemoveExpired(); r != 0 {
					govFail(t, "%s: %d entries expire without an age limit", ctx(), r)
				}
			default:
				for _, e := range ch.GetAll() { // handed out bytes are copies
					b := e.Content()
					for i := range b {
						b[i] = 0
					}
				}
			}
			if ch.Size() != len(ref) || ch.IsEmpty() != (len(ref) == 0) || ch.MaxSize() != max {
				govFail(t, "%s: %d entries, limit %d; want %d entries", ctx(), ch.Size(), ch.MaxSize(), len(ref))
				break
			}
			total := 0
			all := ch.GetAll()
			seen := map[string]bool{}
			rest := append([]gEnt(nil), ref...)
			for i, e := range all {
				if i > 0 && all[i-1].Timestamp().Before(e.Timestamp()) {
					govFail(t, "%s: GetAll is not newest first at %d", ctx(), i)
				}
				if seen[e.ID()] {
					govFail(t, "%s: two entries have the identifier %s", ctx(), e.ID())
				}
				seen[e.ID()] = true
				total += len(e.Content())
				found := -1
				for j, r := range rest {
					if r.mime == e.MIMEType() && r.data == string(e.Content()) {
						found = j
					}
				}
				if found < 0 || e.Size() != len(e.Content()) {
					govFail(t, "%s: entry %q of %s (size %d) is not one of the most recent additions %q", ctx(), e.Content(), e.MIMEType(), e.Size(), ref)
					break
				}
				rest = append(rest[:found], rest[found+1:]...)
				got, err := ch.Get(e.ID())
				if err != nil || got.ID() != e.ID() || !bytes.Equal(got.Content(), e.Content()) || !ch.Contains(e.ID()) {
					govFail(t, "%s: Get(%s) = %v, %v", ctx(), e.ID(), got, err)
				}
			}
			if len(all) != len(ref) || ch.TotalSize() != total {
				govFail(t, "%s: GetAll gives %d of %d entries, TotalSize %d want %d", ctx(), len(all), len(ref), ch.TotalSize(), total)
			}
			if _, err := ch.Get("no such id"); err == nil || ch.Contains("no such id") {
				govFail(t, "%s: an unknown identifier is found", ctx())
			}
			c := rnd.Intn(9) - 1
			want := c
			if c <= 0 || c > len(ref) {
				want = len(ref)
			}
			rec := ch.GetRecent(c)
			if len(rec) != want {
				govFail(t, "%s: GetRecent(%d) gives %d entries, want %d", ctx(), c, len(rec), want)
			}
			for i := range rec {
				if rec[i].Timestamp() != all[i].Timestamp() {
					govFail(t, "%s: GetRecent(%d)[%d] is not GetAll()[%d]", ctx(), c, i, i)
				}
			}
			for _, mt := range mimes[:3] {
				w := 0
				for _, r := range ref {
					if r.mime == mt {
						w++
					}
				}
				g := ch.GetByMIMEType(mt)
				for _, e := range g {
					if e.MIMEType() != mt {
						govFail(t, "%s: GetByMIMEType(%s) gives a %s entry", ctx(), mt, e.MIMEType())
					}
				}
				if len(g) != w {
					govFail(t, "%s: GetByMIMEType(%s) gives %d entries, want %d", ctx(), mt, len(g), w)
				}
			}
			if govFails > 5 {
				return
			}
		}
	}
	govCases(n, "history operations")
}

func TestGovExpiry(t *testing.T) {
	ch := service.NewClipboardHistory(0, time.Hour)
	for i := 0; i < 5; i++ {
		_ = ch.Add([]byte{byte(i + 1)}, value.MIMETypePlainText)
	}
	if r := ch.RemoveExpired(); r != 0 || ch.Size() != 5 {
		govFail(t, "entries younger than the age limit: %d removed, %d left", r, ch.Size())
	}
	time.Sleep(2 * time.Millisecond)
	ch.SetMaxAge(time.Millisecond)
	_ = ch.Add([]byte{9}, value.MIMETypePlainText)
	ch.SetMaxAge(2 * time.Millisecond)
	if r := ch.RemoveExpired(); r != 5 || ch.Size() != 1 || ch.GetAll()[0].Content()[0] != 9 {
		// a slow machine may have let the sixth expire too
		if r != 6 || ch.Size() != 0 {
			govFail(t, "age limit: %d removed, %d left", r, ch.Size())
		}
	}
	govCases(6, "expiry cases")
}
