package dataset

// Lemmas over the contracts of this package: each body only calls functions under contract.

func lemmaCSVOptionsRoundTrip(o *CSVOptions) (*CSVOptions, error) { return NewCSVOptions(o.Map()) }

func lemmaXLSXOptionsRoundTrip(o *XLSXOptions) (FormatConfig, error) { return NewXLSXOptions(o.Map()) }

func lemmaJSONOptionsRoundTrip(o *JSONOptions) (*JSONOptions, error) { return NewJSONOptions(o.Map()) }

func lemmaDataFormatRoundTrip(f DataFormat) (DataFormat, error) { return ParseDataFormatString(f.String()) }

// JSON round trips, over the bodies of the encoders and decoders.

func lemmaTransformJSON(q Transform) (p *Transform, encErr, decErr error) {
	b, encErr := q.MarshalJSON()
	if encErr != nil {
		return nil, encErr, nil
	}
	p = &Transform{}
	decErr = p.UnmarshalJSON(b)
	return p, nil, decErr
}

func lemmaTransformObjectJSON(q Transform) (p *Transform, encErr, decErr error) {
	b, encErr := q.MarshalJSONObject()
	if encErr != nil {
		return nil, encErr, nil
	}
	p = &Transform{}
	decErr = p.UnmarshalJSON(b)
	return p, nil, decErr
}

// two transforms that differ only in the values of their secrets
func lemmaSecretsInvisible(q Transform, other map[string]string) (a, b []byte, e1, e2 error) {
	a, e1 = q.MarshalJSON()
	q.Secrets = other
	b, e2 = q.MarshalJSON()
	return
}

func lemmaSecretsInvisibleObject(q Transform, other map[string]string) (a, b []byte, e1, e2 error) {
	a, e1 = q.MarshalJSONObject()
	q.Secrets = other
	b, e2 = q.MarshalJSONObject()
	return
}

func lemmaStructureJSON(q Structure) (p *Structure, encErr, decErr error) {
	b, encErr := q.MarshalJSON()
	if encErr != nil {
		return nil, encErr, nil
	}
	p = &Structure{}
	decErr = p.UnmarshalJSON(b)
	return p, nil, decErr
}

func lemmaStatsJSON(q Stats) (p *Stats, encErr, decErr error) {
	b, encErr := q.MarshalJSON()
	if encErr != nil {
		return nil, encErr, nil
	}
	p = &Stats{}
	decErr = p.UnmarshalJSON(b)
	return p, nil, decErr
}

func lemmaCommitJSON(q *Commit) (p *Commit, encErr, decErr error) {
	b, encErr := q.MarshalJSON()
	if encErr != nil {
		return nil, encErr, nil
	}
	p = &Commit{}
	decErr = p.UnmarshalJSON(b)
	return p, nil, decErr
}

func lemmaReadmeJSON(q *Readme) (p *Readme, encErr, decErr error) {
	b, encErr := q.MarshalJSON()
	if encErr != nil {
		return nil, encErr, nil
	}
	p = &Readme{}
	decErr = p.UnmarshalJSON(b)
	return p, nil, decErr
}

func lemmaVizJSON(q *Viz) (p *Viz, encErr, decErr error) {
	b, encErr := q.MarshalJSON()
	if encErr != nil {
		return nil, encErr, nil
	}
	p = &Viz{}
	decErr = p.UnmarshalJSON(b)
	return p, nil, decErr
}

func lemmaDatasetJSON(q *Dataset) (p *Dataset, encErr, decErr error) {
	b, encErr := q.MarshalJSON()
	if encErr != nil {
		return nil, encErr, nil
	}
	p = &Dataset{}
	decErr = p.UnmarshalJSON(b)
	return p, nil, decErr
}

func lemmaMetaJSON(q *Meta) (p *Meta, encErr, decErr error) {
	b, encErr := q.MarshalJSON()
	if encErr != nil {
		return nil, encErr, nil
	}
	p = &Meta{}
	decErr = p.UnmarshalJSON(b)
	return p, nil, decErr
}

// C11: two columns never share a name.
func lemmaColumnsDistinct(i, j int) bool {
	return AbstractColumnName(i) != AbstractColumnName(j)
}
