BUGS=[]
def bug(**k): BUGS.append(k)
HX="internal/codec/hex/hex.go"
bug(id="c17-local-zone",prop="C17",
 needs="a server whose local time zone changes its clock (New York), and a time its clock skips",
 what="times are parsed in the local zone, so a reading inside the hour skipped in spring comes back an hour later",
 edits=[(HX,"	timeIns, err := time.Parse(timeBCDLayout, timeStr)","	timeIns, err := time.ParseInLocation(timeBCDLayout, timeStr, time.Local)")],
 pkg="internal/codec/hex",
 demo='''package hex

import (
	"testing"
	"time"
	_ "time/tzdata"
)

func TestDemo(t *testing.T) {
	z, err := time.LoadLocation("America/New_York")
	if err != nil {
		t.Fatal(err)
	}
	time.Local = z
	for _, s := range []string{"230312023000", "240310020001", "230701120000"} {
		i := 0
		if g := FormatTime(*ReadTime(Str2Byte(s), &i)); g != s {
			t.Errorf("%s read as %s", s, g)
		}
	}
}
''')
