package core

import (
	_ "embed"
	"encoding/csv"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/disks"
	"pgregory.net/rapid"
)

// A copy of the table the way it was when the checks were written.
//
//go:embed golden-geometries.csv
var goldenCSV string

type goldenRow struct {
	slug, name, form                                                  string
	year, removable, bits, units, sectors, tracks, hidden, heads, idx uint
}

func golden(t testing.TB) []goldenRow {
	r := csv.NewReader(strings.NewReader(goldenCSV))
	r.Comma = '|'
	records, err := r.ReadAll()
	if err != nil {
		t.Fatal(err)
	}
	rows := []goldenRow{}
	for i, rec := range records[1:] {
		num := func(k int) uint {
			n, err := strconv.ParseUint(rec[k], 10, 32)
			if err != nil {
				t.Fatal(err)
			}
			return uint(n)
		}
		rows = append(rows, goldenRow{name: rec[0], slug: rec[1], year: num(2), form: rec[3], removable: num(4), bits: num(5),
			units: num(6), sectors: num(7), tracks: num(8), hidden: num(9), heads: num(10), idx: uint(i)})
	}
	return rows
}

// The least number of whole bytes that hold the disk.
func bytesFor(g disks.DiskGeometry) *big.Int {
	n := big.NewInt(1)
	for _, f := range []uint{g.BitsPerAddressUnit, g.AddressUnitsPerSector, g.SectorsPerTrack, g.TotalDataTracks, g.Heads} {
		n.Mul(n, new(big.Int).SetUint64(uint64(f)))
	}
	n.Add(n, big.NewInt(7))
	return n.Div(n, big.NewInt(8))
}

func TestG01_PredefinedGeometries(t *testing.T) {
	rows := golden(t)
	pbt.Check(t, 16000, 500000, "random histories of up to 10 lookups of predefined disks, modifying what they return; "+
		"non-trivial: at least 2 different disks",
		func(c *pbt.C) {
			n := pbt.Int(1, 10).Draw(c.T, "lookups")
			distinct := map[string]bool{}
			for i := 0; i < n; i++ {
				row := rows[pbt.Int(0, len(rows)-1).Draw(c.T, "disk")]
				distinct[row.slug] = true
				g, err := disks.GetPredefinedDiskGeometry(row.slug)
				if err != nil {
					c.Fatalf("GetPredefinedDiskGeometry(%q): %v", row.slug, err)
				}
				got := goldenRow{slug: g.Slug, name: g.Name, form: g.FormFactor, year: g.FirstYearAvailable,
					removable: g.IsRemovable, bits: g.BitsPerAddressUnit, units: g.AddressUnitsPerSector,
					sectors: g.SectorsPerTrack, tracks: g.TotalDataTracks, hidden: g.HiddenTracks, heads: g.Heads, idx: row.idx}
				if got != row {
					c.Fatalf("GetPredefinedDiskGeometry(%q) = %+v, expected %+v", row.slug, got, row)
				}
				if size := bytesFor(g); big.NewInt(g.TotalSizeBytes()).Cmp(size) != 0 {
					c.Fatalf("%s: TotalSizeBytes() = %d, expected %d", row.slug, g.TotalSizeBytes(), size)
				}
				// What the caller does with its copy is its own business.
				g.Slug, g.Heads, g.TotalDataTracks = "mine", 0, 1
				c.AddDesc("%s ", row.slug)
			}
			c.NonTrivial(len(distinct) > 1)
		})
}

func TestG01_UnknownGeometries(t *testing.T) {
	rows := golden(t)
	known := map[string]bool{}
	for _, row := range rows {
		known[row.slug] = true
	}
	pbt.Check(t, 12000, 500000, "slugs that aren't in the table: prefixes, suffixes, other case, names instead of slugs, "+
		"random; non-trivial: derived from a real one",
		func(c *pbt.C) {
			row := rows[pbt.Int(0, len(rows)-1).Draw(c.T, "disk")]
			slug := row.slug
			kind := pbt.Int(0, 6).Draw(c.T, "kind")
			switch kind {
			case 0:
				slug = slug[:pbt.Int(0, len(slug)-1).Draw(c.T, "prefix")]
			case 1:
				slug += rapid.StringMatching(`[ x.]{1,3}`).Draw(c.T, "suffix")
			case 2:
				slug = strings.ToUpper(slug)
			case 3:
				slug = row.name
			case 4:
				slug = " " + slug
			case 5:
				slug = "no such " + rapid.StringMatching(`[a-z0-9_]{0,12}`).Draw(c.T, "slug")
			default:
				i := pbt.Int(0, len(slug)-1).Draw(c.T, "at")
				slug = slug[:i] + "?" + slug[i+1:]
			}
			if known[slug] {
				c.Skip("happens to be a slug")
			}
			c.Describe("%q", slug)
			c.NonTrivial(kind != 5)
			g, err := disks.GetPredefinedDiskGeometry(slug)
			if err == nil && g.Slug == slug {
				// Added to the table later.
				c.Skip("is a slug now")
			}
			if err == nil {
				c.Fatalf("GetPredefinedDiskGeometry(%q) found %+v", slug, g)
			}
			if g != (disks.DiskGeometry{}) {
				c.Fatalf("GetPredefinedDiskGeometry(%q) failed but returned %+v", slug, g)
			}
		})
}

func TestG01_Sizes(t *testing.T) {
	pbt.Check(t, 32000, 2500000, "random geometries with sizes below 2^62 bits, many of them with odd word lengths, and block "+
		"sizes and counts; non-trivial: not a whole number of bytes, or more than 4 GiB",
		func(c *pbt.C) {
			bits := []uint{1, 6, 7, 8, 12, 16, 18, 24, 36, 60}
			g := disks.DiskGeometry{
				BitsPerAddressUnit:    bits[pbt.Int(0, len(bits)-1).Draw(c.T, "bits")],
				AddressUnitsPerSector: uint(pbt.Int(0, 5000).Draw(c.T, "units")),
				SectorsPerTrack:       uint(pbt.Int(0, 3000).Draw(c.T, "sectors")),
				TotalDataTracks:       uint(pbt.Int(0, 70000).Draw(c.T, "tracks")),
				HiddenTracks:          uint(pbt.Int(0, 5).Draw(c.T, "hidden")),
				Heads:                 uint(pbt.Int(0, 255).Draw(c.T, "heads")),
			}
			if pbt.Int(0, 1).Draw(c.T, "small") == 0 {
				g.AddressUnitsPerSector = g.AddressUnitsPerSector%400 + 1
				g.SectorsPerTrack = g.SectorsPerTrack%30 + 1
				g.TotalDataTracks = g.TotalDataTracks%100 + 1
				g.Heads = g.Heads%8 + 1
			}
			want := bytesFor(g)
			product := int64(g.BitsPerAddressUnit) * int64(g.AddressUnitsPerSector) * int64(g.SectorsPerTrack) * int64(g.TotalDataTracks) * int64(g.Heads)
			c.Describe("%+v", g)
			c.LabelIf(product%8 != 0, "partial byte")
			c.NonTrivial(product%8 != 0 || product > 1<<35)
			if got := g.TotalSizeBytes(); big.NewInt(got).Cmp(want) != 0 {
				c.Fatalf("TotalSizeBytes() of %+v = %d, expected %d", g, got, want)
			}
			stat := disko.FSStat{
				BlockSize:   uint(pbt.Int(0, 1<<17).Draw(c.T, "block size")),
				TotalBlocks: uint64(pbt.Int(0, 1<<44).Draw(c.T, "blocks")),
			}
			size := new(big.Int).Mul(big.NewInt(int64(stat.BlockSize)), big.NewInt(int64(stat.TotalBlocks)))
			if got := stat.Metadata(); got != nil {
				c.Fatalf("Metadata() of %+v = %v", stat, got)
			}
			if got := stat.TotalSizeBytes(); big.NewInt(got).Cmp(size) != 0 {
				c.Fatalf("TotalSizeBytes() of %d blocks of %d = %d, expected %d", stat.TotalBlocks, stat.BlockSize, got, size)
			}
		})
}
