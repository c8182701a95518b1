package props

import (
	"fmt"
	"time"

	"github.com/pbnjay/grate"
	"github.com/pbnjay/grate/commonxl"

	"verif/mc/engine"
	"verif/mc/gen"
)

// civil is the proleptic Gregorian date of a day number counted from 1970-01-01.
func civil(z int) (y, m, d int) {
	z += 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp + 3
	if m > 12 {
		m -= 12
		y++
	}
	return
}

const (
	epoch1900 = -25569 // 1899-12-30
	epoch1904 = -24107 // 1904-01-01
)

// moment is what a serial number denotes.
type moment struct {
	day, y, m, d, H, M, S, T int // T: tenths
}

func momentOf(day, tenths int, m1904 bool) moment {
	e := epoch1900
	if m1904 {
		e = epoch1904
	}
	x := moment{day: day}
	x.y, x.m, x.d = civil(day + e)
	s := tenths / 10
	x.H, x.M, x.S, x.T = s/3600, s/60%60, s%60, tenths%10
	return x
}

var c14Mon = []string{"", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

// c14Text is the text of a built-in date format; a second form pads the hour of formats which show it without.
func c14Text(id uint16, x moment) (string, string) {
	h12 := (x.H+11)%12 + 1
	ap, cn := "AM", "上午"
	if x.H >= 12 {
		ap, cn = "PM", "下午"
	}
	yy := x.y % 100
	two := func(f string, h int, a ...interface{}) (string, string) {
		return fmt.Sprintf("%d"+f, append([]interface{}{h}, a...)...), fmt.Sprintf("%02d"+f, append([]interface{}{h}, a...)...)
	}
	one := func(f string, a ...interface{}) (string, string) {
		s := fmt.Sprintf(f, a...)
		return s, s
	}
	switch id {
	case 14:
		return one("%02d-%02d-%02d", x.m, x.d, yy)
	case 15, 72:
		return one("%d-%s-%02d", x.d, c14Mon[x.m], yy)
	case 16, 73:
		return one("%d-%s", x.d, c14Mon[x.m])
	case 17, 74:
		return one("%s-%02d", c14Mon[x.m], yy)
	case 18:
		return two(":%02d %s", h12, x.M, ap)
	case 19:
		return two(":%02d:%02d %s", h12, x.M, x.S, ap)
	case 20, 75:
		return two(":%02d", x.H, x.M)
	case 21, 76:
		return two(":%02d:%02d", x.H, x.M, x.S)
	case 22:
		d := fmt.Sprintf("%d/%d/%02d ", x.m, x.d, yy)
		a, b := two(":%02d", x.H, x.M)
		return d + a, d + b
	case 77:
		d := fmt.Sprintf("%d/%d/%04d ", x.d, x.m, x.y)
		a, b := two(":%02d", x.H, x.M)
		return d + a, d + b
	case 27, 36, 50, 52, 57:
		return one("%04d年%d月", x.y, x.m)
	case 28, 29, 51, 53, 54, 58:
		return one("%d月%d日", x.m, x.d)
	case 30:
		return one("%d-%d-%02d", x.m, x.d, yy)
	case 31:
		return one("%04d年%d月%d日", x.y, x.m, x.d)
	case 32:
		return two("时%02d分", x.H, x.M)
	case 33:
		return two("时%02d分%02d秒", x.H, x.M, x.S)
	case 34, 55:
		a, b := two("时%02d分", h12, x.M)
		return cn + " " + a, cn + " " + b
	case 35, 56:
		a, b := two("时%02d分%02d秒", h12, x.M, x.S)
		return cn + " " + a, cn + " " + b
	case 45, 78:
		return one("%02d:%02d", x.M, x.S)
	case 46, 79:
		return one("%d:%02d:%02d", x.day*24+x.H, x.M, x.S)
	case 47:
		return one("%02d%02d.%d", x.M, x.S, x.T)
	case 80:
		return one("%02d:%02d.%d", x.M, x.S, x.T)
	case 71:
		return one("%d/%d/%04d", x.d, x.m, x.y)
	}
	panic("no such format")
}

var c14Date = []uint16{14, 15, 16, 17, 22, 27, 28, 29, 30, 31, 36, 50, 51, 52, 53, 54, 57, 58, 71, 72, 73, 74, 77}
var c14Time = []uint16{18, 19, 20, 21, 32, 33, 34, 35, 45, 46, 47, 55, 56, 75, 76, 78, 79, 80}

func c14Show(c *engine.Ctx, fx *commonxl.Formatter, id uint16, v interface{}, x moment) {
	var s string
	var ok bool
	c.Guard(fmt.Sprintf("Apply(%d, %v)", id, v), func() { s, ok = fx.Apply(id, v) })
	a, b := c14Text(id, x)
	if !ok || s != a && s != b {
		c.Failf("Apply(%d, %v) = %q, %v; want %q (%+v)", id, v, s, ok, a, x)
	}
	c.Steps(1)
}

func c14Convert(c *engine.Ctx, fx *commonxl.Formatter, v float64, x moment) time.Time {
	var t time.Time
	c.Guard(fmt.Sprintf("ConvertToDate(%v)", v), func() { t = fx.ConvertToDate(v) })
	r := t.Round(10 * time.Millisecond)
	y, m, d := r.Date()
	if y != x.y || int(m) != x.m || d != x.d || r.Hour() != x.H || r.Minute() != x.M || r.Second() != x.S || r.Nanosecond() != x.T*100000000 {
		c.Failf("ConvertToDate(%v) = %v; want %+v", v, t, x)
	}
	if r.Sub(t) > time.Millisecond || t.Sub(r) > time.Millisecond || t.Second() != x.S {
		c.Failf("ConvertToDate(%v) = %v; want %+v", v, t, x)
	}
	c.Steps(1)
	return t
}

func c14Mode(c *engine.Ctx) (*commonxl.Formatter, bool) {
	m := c.Pick("mode1904", 3)
	fx := &commonxl.Formatter{}
	if m > 0 {
		fx.Mode1904(true)
	}
	if m == 2 { // switched off again
		fx.Mode1904(false)
	}
	return fx, m == 1
}

const (
	lastSerial1900 = 2958465
	lastSerial1904 = lastSerial1900 - 1462
)

// every day
func c14Days(c *engine.Ctx) {
	fx, m := c14Mode(c)
	const B = 4000
	first, last := 61, lastSerial1900
	if m {
		first, last = 0, lastSerial1904
	}
	b := c.Pick("block", lastSerial1900/B+1)
	for day := b * B; day < (b+1)*B && day <= last; day++ {
		if day < first {
			// one of the two conventions
			var t time.Time
			c.Guard(fmt.Sprintf("ConvertToDate(%d)", day), func() { t = fx.ConvertToDate(float64(day)) })
			if d := t.Sub(time.Date(1899, 12, 30, 0, 0, 0, 0, time.UTC)).Hours() - float64(24*day); d != 0 && d != 24 {
				c.Failf("ConvertToDate(%d) = %v", day, t)
			}
			continue
		}
		x := momentOf(day, 0, m)
		t := c14Convert(c, fx, float64(day), x)
		near := x.m == 2 && x.d > 27 || x.m == 3 && x.d == 1 || x.m == 12 && x.d == 31 || x.m == 1 && x.d == 1
		if c.Thorough || day < 4000 || near || day%61 == 0 {
			for _, id := range c14Date {
				c14Show(c, fx, id, float64(day), x)
			}
			c14Show(c, fx, c14Date[day%len(c14Date)], int64(day), x)
			c14Show(c, fx, c14Date[day%len(c14Date)], t, x)
		}
		if near {
			// the last tenth of the day
			y := momentOf(day, 863999, m)
			v := float64(day) + 863999.0/864000
			c14Convert(c, fx, v, y)
			c14Show(c, fx, 22, v, y)
			c14Show(c, fx, 21, v, y)
		}
	}
	c.State(m, b)
}

// every second of a day
func c14Seconds(c *engine.Ctx) {
	fx, m := c14Mode(c)
	days := []int{0, 1, 60, 61, 62, 36526, 43890, 100000, 2950000}
	if !c.Thorough {
		days = []int{0, 61, 43890, 2950000}
	}
	day := days[c.Pick("day", len(days))]
	hour := c.Pick("hour", 24)
	for s := hour * 3600; s < (hour+1)*3600; s++ {
		v := float64(day) + float64(s)/86400
		x := momentOf(day, s*10, m)
		t := c14Convert(c, fx, v, x)
		for _, id := range c14Time {
			c14Show(c, fx, id, v, x)
			if s%7 == 0 {
				c14Show(c, fx, id, t, x)
			}
		}
	}
	c.State(m, day, hour)
}

// every tenth of a second
func c14Tenths(c *engine.Ctx) {
	fx, m := c14Mode(c)
	day := []int{0, 43890}[c.Pick("day", 2)]
	part := c.Pick("part", 96)
	if !c.Thorough && part%8 != 0 && part != 95 {
		return
	}
	for k := part * 9000; k < (part+1)*9000; k++ {
		v := float64(day) + float64(k)/864000
		x := momentOf(day, k, m)
		c14Convert(c, fx, v, x)
		for _, id := range []uint16{47, 80, 21, 46} {
			c14Show(c, fx, id, v, x)
		}
	}
	c.State(m, day, part)
}

// every thousandth of some seconds
func c14Thousandths(c *engine.Ctx) {
	fx, m := c14Mode(c)
	day := []int{61, 366, 43890, 100000, lastSerial1904, 0}[c.Pick("day", 6)]
	if day == 0 && !m {
		return
	}
	secs := []int{0, 1, 59, 60, 3599, 3600, 43199, 43200, 86340, 86398, 86399}
	s := secs[c.Pick("second", len(secs))]
	base := momentOf(day, s*10, m)
	midnight := time.Date(base.y, time.Month(base.m), base.d, 0, 0, 0, 0, time.UTC)
	for ms := 0; ms < 1000; ms++ {
		v := float64(day) + float64(s*1000+ms)/86400000
		var t time.Time
		c.Guard(fmt.Sprintf("ConvertToDate(%v)", v), func() { t = fx.ConvertToDate(v) })
		want := midnight.Add(time.Duration(s*1000+ms) * time.Millisecond)
		if d := t.Sub(want); d > time.Millisecond || d < -time.Millisecond {
			c.Failf("ConvertToDate(%v) = %v; want %v", v, t, want)
		}
		c.Steps(1)
	}
	c.State(m, day, s)
}

// zones whose clocks and calendars jump in different ways
var c14Zones = []string{"UTC", "America/New_York", "Europe/London", "America/Sao_Paulo", "Pacific/Apia", "Asia/Kathmandu", "Australia/Lord_Howe", "Africa/Monrovia", "Pacific/Kiritimati", "Asia/Tehran"}

// the local time zone of the process, on every day
func c14Zone(c *engine.Ctx) {
	zone := c14Zones[c.Pick("zone", len(c14Zones))]
	loc, err := time.LoadLocation(zone)
	if err != nil {
		c.Environment(err)
	}
	old := time.Local
	time.Local = loc
	defer func() { time.Local = old }()
	fx, m := c14Mode(c)
	const B = 2000
	b := c.Pick("block", 50)
	for day := b * B; day < (b+1)*B; day++ {
		if day < 61 && !m {
			continue
		}
		for _, tenths := range []int{0, 36000 * 1, 90000, 108000, 432000, 828000, 863999} {
			v := float64(day) + float64(tenths)/864000
			x := momentOf(day, tenths, m)
			t := c14Convert(c, fx, v, x)
			if day%3 == 0 {
				c14Show(c, fx, 22, v, x)
				c14Show(c, fx, 46, v, x)
				c14Show(c, fx, 22, t, x)
			}
		}
	}
	c.State(zone, m, b)
}

// c14File: the date system a file declares
func c14File(c *engine.Ctx) {
	format := c.Pick("format", 2)
	decl := c.Pick("declared", 5)
	m := false
	id := append(append([]uint16(nil), c14Date...), c14Time...)[c.Pick("id", len(c14Date)+len(c14Time))]
	tenths := []int{0, 432000, 863990, 1234 * 10}[c.Pick("time", 4)]
	day := []int{0, 61, 366, 43890, 45351, 2900000}[c.Pick("day", 6)]
	var col grate.Collection
	v := float64(day) + float64(tenths)/864000
	var src grate.Source
	kind := c.Pick("kind", 3)
	if format == 0 {
		x := &gen.XLS{}
		d := []gen.Rec{gen.Date1904(decl == 1 || decl == 2)}
		m = decl == 1 || decl == 2
		f := []gen.Rec{gen.XF(0), gen.XF(int(id))}
		switch decl {
		case 0:
			x.Pre = f
		case 1, 3:
			x.Pre = append(d, f...)
		case 2, 4: // after the formats
			x.Pre = append(f, d...)
		}
		rec := gen.Number(0, 0, 1, v)
		switch kind {
		case 1:
			rec = gen.Formula(0, 0, 1, gen.FNum(v))
		case 2:
			if tenths != 0 || day >= 1<<29 {
				return
			}
			rec = gen.RK(0, 0, 1, rkInt(int32(day), false))
		}
		x.Sheets = []gen.Sheet{{Name: "S", Recs: []gen.Rec{gen.Dimensions(0, 1, 0, 1), rec}}}
		col = xlsSheet(c, x, "S")
	} else {
		x := &gen.XLSX{XFs: []string{gen.XFX(0), gen.XFX(int(id))}}
		x.Date1904 = []string{"", "1", "true", "0", "false"}[decl]
		m = decl == 1 || decl == 2
		f := []string{"", "<f>NOW()</f>", ""}[kind]
		t := []string{"", "", "n"}[kind]
		x.Sheets = []gen.XSheet{{Name: "S", Dim: "A1", Rows: gen.RowX(0, gen.C(0, 0, t, 1, f+gen.V(fmt.Sprint(v))))}}
		src, col = xlsxGet(c, x, "S")
		defer src.Close()
	}
	if !m && day < 61 && (id < 18 || id > 21) {
		return
	}
	if m && day > lastSerial1904 {
		return
	}
	x := momentOf(day, tenths, m)
	a, b := c14Text(id, x)
	w := want{typ: "date", str: a}
	col.Next()
	s := col.Strings()
	if s[0] == b {
		w.str = b
	}
	var t time.Time
	if err := col.Scan(&t); err != nil {
		c.Failf("Scan: %v", err)
	}
	y, mo, d := t.Date()
	if y != x.y || int(mo) != x.m || d != x.d || t.Hour() != x.H || t.Minute() != x.M || t.Second() != x.S {
		c.Failf("scans as %v, want %+v", t, x)
	}
	if msg := checkCell(w, s[0], col.Types()[0], col.Formats()[0]); msg != "" {
		c.Failf("serial %v, format %d, 1904 system %v: %s", v, id, m, msg)
	}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C14", Level: "model_checking",
		Rule:        "days: every serial day up to year 9999 in both date systems (thorough: under every date format; quick: every format on the first 4000, all month and year ends and every 61st); seconds: every second of 4 (thorough 9) days x every time format; tenths: tenths of seconds; thousandths: every thousandth of 11 seconds of 6 days; zones: ten local time zones x every day of 270 years x seven times of day; file: declared date system x file format x date format x value. Oracle: the Gregorian calendar computed independently",
		Assumptions: []string{"serials 1 to 60 of the 1900 system have two dates a day apart, by the epoch or as the spreadsheet shows them (time of day and 1904 dates are checked)", "hours may be padded with a zero where the format does not", "the Buddhist calendar format 81 is left out"},
		Harnesses: []engine.Harness{
			{Name: "days", Run: c14Days},
			{Name: "seconds", Run: c14Seconds},
			{Name: "tenths", Run: c14Tenths},
			{Name: "thousandths", Run: c14Thousandths},
			{Name: "zones", Run: c14Zone},
			{Name: "file", Run: c14File},
		},
	})
}
