package verifharness

import (
	sym "github.com/vearutop/flatjsonl/verifsym"
)

// neutral sets an option that does not change the CSV output of the inputs
// harnesses use it with. keys are the keys in the order of their columns.
func neutral(j *job, keys ...string) {
	d := "::"
	switch sym.Choose(22) {
	case 0:
		j.f.MaxLines = 100
	case 1:
		j.f.MaxLinesKeys = 100
	case 2:
		j.f.FieldLimit = 100
	case 3:
		j.f.KeyLimit = 100
	case 4:
		j.f.ChildrenLimit = 0
	case 5:
		j.f.Verbosity = 2
	case 6:
		j.f.ShowKeysFlat = true
		j.f.ShowKeysInfo = true
	case 7:
		j.f.ShowKeysHier = true
		j.f.ShowJSONSchema = true
	case 8:
		j.f.Raw = tmp("n.raw")
		j.f.RawDelim = "|"
		j.f.PGDump = tmp("n.sql")
	case 9:
		j.f.SQLite = tmp("n.sqlite")
	case 10:
		j.f.BufSize = 100
	case 11:
		j.f.Concurrency = 3
	case 12:
		j.cfg.ConcatDelimiter = &d
	case 13:
		if keys == nil {
			sym.Skip()
		}
		j.cfg.IncludeKeys = keys
	case 14:
		j.cfg.IncludeKeysRegex = []string{"^.*$"}
	case 15:
		j.cfg.ExcludeKeys = []string{".no", ".such.key"}
		j.cfg.ExcludeKeysRegex = []string{".no.*"}
		j.cfg.ReplaceKeys = map[string]string{".no": ".id", ".such": "x"}
	case 16:
		j.cfg.ParseTime = map[string]string{".no": "2006"}
		j.cfg.OutputTimezone = "UTC"
		j.cfg.OutputTimeFormat = "2006"
	case 17:
		j.cfg.Transpose = map[string]string{".no": "t"}
	case 18:
		j.f.CaseSensitiveKeys = true
	case 19:
		j.cfg.KeepJSON = []string{".no", ".such"}
		j.cfg.AllowCardinality = []string{".no"}
	case 20:
		j.f.ExtractStrings = true
		extractAs(&j.cfg.ExtractValuesRegex, ".no", "JSON")
	case 21:
		if keys == nil {
			sym.Skip()
		}
		// Listed columns have other values than zeros.
		j.f.SkipZeroCols = true
	}
}

// extractAs sets an element of the map, whose type is not exported.
func extractAs[M ~map[string]E, E ~string](m *M, key, format string) {
	if *m == nil {
		*m = M{}
	}
	(*m)[key] = E(format)
}
