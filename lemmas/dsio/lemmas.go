package dsio

// Lemmas over the contracts of this package: each body only calls functions of the package.

// a whole page read through PagedReader, over the body of ReadAllArray and the contract of PagedReader.ReadEntry
func lemmaPage(p *PagedReader) ([]interface{}, error) { return ReadAllArray(p) }

// a page copied to a writer
func lemmaCopyPage(p *PagedReader, w EntryWriter) error { return Copy(p, w) }

func lemmaNDJSONStep(r *NDJSONReader, v interface{}, rest string) (Entry, error) { return r.ReadEntry() }
func lemmaNDJSONEnd(r *NDJSONReader) (Entry, error)                              { return r.ReadEntry() }
func lemmaNDJSONLast(r *NDJSONReader, v interface{}) (Entry, error)              { return r.ReadEntry() }

// cells of a row written by encode and read by decode
func lemmaCSVCells(r *CSVReader, vs []interface{}) ([]interface{}, error) {
	strs, err := encode(vs)
	if err != nil {
		return nil, err
	}
	return r.decode(strs)
}
