package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/pbnjay/grate"
)

// row is what a collection shows for one record.
type row struct {
	S, T, F []string
}

// table is the observable content of a collection.
type table struct {
	Rows  []row
	Empty bool
}

func (t *table) String() string {
	var b strings.Builder
	for _, r := range t.Rows {
		fmt.Fprintf(&b, "  %q %v %q\n", r.S, r.T, r.F)
	}
	return b.String()
}

const maxRows = 200000

// readAll drains a collection.
func readAll(col grate.Collection) (*table, error) {
	t := &table{Empty: col.IsEmpty()}
	for col.Next() {
		r := row{S: col.Strings(), T: col.Types(), F: col.Formats()}
		t.Rows = append(t.Rows, r)
		if len(t.Rows) > maxRows {
			return t, errors.New("too many rows")
		}
	}
	return t, col.Err()
}

// dump lists and reads every sheet of a source.
func dump(src grate.Source) (string, error) {
	var b strings.Builder
	names, err := src.List()
	if err != nil {
		return "", err
	}
	fmt.Fprintf(&b, "%q\n", names)
	for _, n := range names {
		col, err := src.Get(n)
		if err != nil {
			fmt.Fprintf(&b, "%q: error %v\n", n, err)
			continue
		}
		t, err := readAll(col)
		fmt.Fprintf(&b, "%q: empty=%v err=%v\n%s", n, t.Empty, err, t)
	}
	return b.String(), nil
}
