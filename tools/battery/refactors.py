entries = []
def R(name, *edits): entries.append((name, '', list(edits)))
CL='core/clustering.go'; DBA='core/par_dba.go'; LOSS='core/par_loss.go'; PAS='core/par_assign.go'; UT='core/util.go'

R('nearest-range', (CL, '''	for i := 0; i < len(*c); i++ {
		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
			min = d
			label = i
		}
	}
''','''	for i, center := range *c {
		var d = space.Dist(elemt, center)
		if label == -1 || d < min {
			min, label = d, i
		}
	}
'''))
R('nearest-first', (CL, '''	for i := 0; i < len(*c); i++ {
		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
			min = d
			label = i
		}
	}
''','''	if len(*c) == 0 {
		return
	}
	label = 0
	min = space.Dist(elemt, (*c)[0])
	for i := 1; i < len(*c); i++ {
		if d := space.Dist(elemt, (*c)[i]); d < min {
			min = d
			label = i
		}
	}
'''))
R('nearest-inf', (CL, '''	min = -1
	label = -1

	for i := 0; i < len(*c); i++ {
		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
''','''	min = -1
	label = -1
	var centers = *c
	for i := range centers {
		d := space.Dist(elemt, centers[i])
		if label >= 0 && d >= min {
			continue
		}
		{
'''))
R('assign-early', (CL, '''	label, dist = c.nearest(elemt, space)
	if label >= 0 {
		centroid = (*c)[label]
	}
	return
''','''	label, dist = c.nearest(elemt, space)
	if label < 0 {
		return nil, label, dist
	}
	return (*c)[label], label, dist
'''))
R('maplabel-idx', (CL, '''	for i, elemt := range elemts {
		labels[i], dists[i] = c.nearest(elemt, space)
	}
''','''	for i := 0; i < len(elemts); i++ {
		var label, dist = c.nearest(elemts[i], space)
		dists[i] = dist
		labels[i] = label
	}
'''))
R('parmaplabel-direct', (PAS, '''		var partLabels, partDists = centroids.MapLabel(data[start:end], space)
		copy(labels[start:end], partLabels)
		copy(dists[start:end], partDists)
''','''		for i := start; i < end; i++ {
			labels[i], dists[i] = centroids.nearest(data[i], space)
		}
'''))
R('parmaplabel-copyidx', (PAS, '''		copy(labels[start:end], partLabels)
		copy(dists[start:end], partDists)
''','''		for i := range partLabels {
			labels[start+i] = partLabels[i]
		}
		copy(dists[start:], partDists)
'''))
R('reduce-helper', (CL, '''		var _, ix, _ = c.Assign(elemt, space)

		if cards[ix] == 0 {
			centroids[ix] = space.Copy(elemt)
			cards[ix] = 1
		} else {
			centroids[ix] = space.Combine(centroids[ix], cards[ix], elemt, 1)
			cards[ix]++
		}
	}
''','''		var ix, _ = c.nearest(elemt, space)
		accumulate(centroids, cards, ix, elemt, space)
	}
'''), (CL, '''
		var label = labels[i]

		if cards[label] == 0 {
			means[label] = space.Copy(elemt)
			cards[label] = 1
		} else {
			means[label] = space.Combine(means[label], cards[label], elemt, 1)
			cards[label]++
		}
''','''		accumulate(means, cards, labels[i], elemt, space)
'''), (CL, '''// DBA returns the averaged element''','''func accumulate(means []Elemt, cards []int, label int, elemt Elemt, space Space) {
	if cards[label] > 0 {
		means[label] = space.Combine(means[label], cards[label], elemt, 1)
	} else {
		means[label] = space.Copy(elemt)
	}
	cards[label]++
}

// DBA returns the averaged element'''))
R('reduce-forlabels', (CL, '''	centroids = make(Clust, len(*c))
	cards = make([]int, len(*c))

	for _, elemt := range elemts {
		var _, ix, _ = c.Assign(elemt, space)

		if cards[ix] == 0 {
			centroids[ix] = space.Copy(elemt)
			cards[ix] = 1
		} else {
			centroids[ix] = space.Combine(centroids[ix], cards[ix], elemt, 1)
			cards[ix]++
		}
	}

	return
''','''	labels, _ := c.MapLabel(elemts, space)
	return c.ReduceDBAForLabels(elemts, labels, space)
'''))
R('reduceloss-map', (CL, '''	for _, elemt := range elemts {
		var label, min = c.nearest(elemt, space)
		cards[label]++
		losses[label] += math.Pow(min, norm)
	}
''','''	labels, dists := c.MapLabel(elemts, space)
	for i, label := range labels {
		losses[label] = losses[label] + math.Pow(dists[i], norm)
		cards[label] = cards[label] + 1
	}
'''))
R('total-loop', (CL, '''	losses, _ := c.ReduceLoss(elemts, space, norm)
	return floats.Sum(losses)
''','''	losses, _ := c.ReduceLoss(elemts, space, norm)
	var total float64
	for _, loss := range losses {
		total += loss
	}
	return total
'''))
R('dba-range', (CL, '''	dba = space.Copy(elemts[0])
	var weight = 1

	for i := 1; i < len(elemts); i++ {
		dba = space.Combine(dba, weight, elemts[i], 1)
		weight++
	}
''','''	dba = space.Copy(elemts[0])

	for i, elemt := range elemts[1:] {
		dba = space.Combine(dba, i+1, elemt, 1)
	}
'''))
R('wdba-while', (CL, '''	for i := 1; i < len(elemts); i++ {
		dba = space.Combine(dba, weight, elemts[i], weights[i])
		weight += weights[i]
	}
''','''	var i = 1
	for i < len(elemts) {
		var w = weights[i]
		dba = space.Combine(dba, weight, elemts[i], w)
		weight = weight + w
		i++
	}
'''))
R('dba-weighted', (CL, '''	dba = space.Copy(elemts[0])
	var weight = 1

	for i := 1; i < len(elemts); i++ {
		dba = space.Combine(dba, weight, elemts[i], 1)
		weight++
	}

	return
''','''	var weights = make([]int, len(elemts))
	for i := range weights {
		weights[i] = 1
	}
	return WeightedDBA(elemts, weights, space)
'''))
R('aggregate-first', (DBA, '''	var aggregate dbaPartition
	for _, other := range parts {
		if aggregate.dbas == nil {
			aggregate.dbas = other.dbas
			aggregate.cards = other.cards
		} else {
			aggregate = dbaCombine(space, aggregate, other)
		}
	}

	return aggregate
''','''	var aggregate = parts[0]
	for _, other := range parts[1:] {
		aggregate = dbaCombine(space, aggregate, other)
	}

	return aggregate
'''))
R('combine-if', (DBA, '''		switch {
		case aggregate.cards[i] == 0:
			aggregate.dbas[i] = other.dbas[i]
			aggregate.cards[i] = other.cards[i]

		case other.cards[i] > 0:
			aggregate.dbas[i] = space.Combine(
				aggregate.dbas[i], aggregate.cards[i],
				other.dbas[i], other.cards[i],
			)
			aggregate.cards[i] += other.cards[i]
		}
''','''		if other.cards[i] == 0 {
			continue
		}
		if aggregate.cards[i] == 0 {
			aggregate.dbas[i] = other.dbas[i]
		} else {
			aggregate.dbas[i] = space.Combine(other.dbas[i], other.cards[i], aggregate.dbas[i], aggregate.cards[i])
		}
		aggregate.cards[i] += other.cards[i]
'''))
R('build-range', (DBA, '''	for i := 0; i < len(data); i++ {
		if aggr.cards[i] > 0 {
			result[i] = aggr.dbas[i]
		} else {
			result[i] = data[i]
		}
	}
''','''	for i := range result {
		result[i] = aggr.dbas[i]
		if aggr.cards[i] == 0 {
			result[i] = data[i]
		}
	}
'''))
R('loss-agg-noncopy', (LOSS, '''	for _, agg := range parts {
		if aggregate.losses == nil {
			aggregate.losses = make([]float64, len(agg.losses))
			aggregate.cards = make([]int, len(agg.cards))
			copy(aggregate.losses, agg.losses)
			copy(aggregate.cards, agg.cards)
		} else {
			for i := range agg.losses {
				aggregate.losses[i] += agg.losses[i]
				aggregate.cards[i] += agg.cards[i]
			}
		}
	}
''','''	for i := 0; i < len(parts); i++ {
		if i == 0 {
			aggregate = parts[0]
			continue
		}
		for j, loss := range parts[i].losses {
			aggregate.losses[j] += loss
			aggregate.cards[j] += parts[i].cards[j]
		}
	}
'''))
R('loss-agg-loops', (LOSS, '''			for i := range agg.losses {
				aggregate.losses[i] += agg.losses[i]
				aggregate.cards[i] += agg.cards[i]
			}
''','''			for i := range agg.losses {
				aggregate.losses[i] += agg.losses[i]
			}
			for i := range agg.cards {
				aggregate.cards[i] += agg.cards[i]
			}
'''))
R('par-inline-worker', (DBA, '''	var process = func(start int, end int, rank int) {
		dbaReduce(space, centroids, data[start:end], &parts[rank])
	}

	Par(process, len(data), degree)

	var aggr = dbaAggregate(parts, space)
	return buildResult''','''	Par(func(start int, end int, rank int) {
		var part = data[start:end]
		dbas, cards := centroids.ReduceDBA(part, space)
		parts[rank] = dbaPartition{dbas: dbas, cards: cards}
	}, len(data), degree)

	var aggr = dbaAggregate(parts, space)
	return buildResult'''))
R('par-ge', (UT, '''		if i == degree-remainder {
			offset++
		}
		var end = start + offset
		if end > size {
			end = size
		}
''','''		var end = start + offset
		if i >= degree-remainder {
			end++
		}
'''))
R('par-noclamp', (UT, '''		if end > size {
			end = size
		}
''',''))
R('par-firstbig', (UT, '''		if i == degree-remainder {
			offset++
		}
		var end = start + offset
''','''		var end = start + offset
		if i < remainder {
			end++
		}
'''))
R('par-addone', (UT, '''	wg.Add(degree)
''',''), (UT, '''		go launch(start, end, i)
''','''		wg.Add(1)
		go launch(start, end, i)
'''))
R('par-rangeform', (UT, '''		go launch(start, end, i)
		start = end
''','''		go func(first, last, rank int) {
			launch(first, last, rank)
		}(start, end, i)
		start = end
'''))
R('par-valuewg', (UT, '''	var wg = &sync.WaitGroup{}
''','''	var wg sync.WaitGroup
'''))
R('kmeans-build-new', ('kmeans/seq.go', '''	for i := 0; i < len(result); i++ {
		if result[i] == nil {
			result[i] = centroids[i]
		}
	}
	return result
''','''	var filled = make(core.Clust, len(result))
	for i, center := range result {
		if center != nil {
			filled[i] = center
		} else {
			filled[i] = centroids[i]
		}
	}
	return filled
'''))
R('kmeans-build-cards', ('kmeans/seq.go', '''	var result, _ = centroids.ReduceDBA(data, space)
	return strategy.buildResult(centroids, result)
''','''	var result, cards = centroids.ReduceDBA(data, space)
	for i := range cards {
		if cards[i] == 0 {
			result[i] = centroids[i]
		}
	}
	return result
'''))
VEC='euclid/vectors.go'; COS='cosinus/cosinus.go'
LOOP='''	var sum = 0.
	for i := 0; i < len(point1); i++ {
		var v = point1[i] - point2[i]
		sum += v * v
	}
	return math.Sqrt(sum)
'''
R('dist-pow', (VEC, LOOP, '''	var sum float64
	for i, x := range point1 {
		sum += math.Pow(x-point2[i], 2)
	}
	return math.Pow(sum, 0.5)
'''))
R('dist-back', (VEC, LOOP, '''	var sum float64
	for i := len(point1) - 1; i >= 0; i-- {
		sum = sum + (point2[i]-point1[i])*(point2[i]-point1[i])
	}
	return math.Sqrt(sum)
'''))
R('dist-helper', (VEC, LOOP, '''	return math.Sqrt(squares(point1, point2))
'''), (VEC, '', '''
func squares(a, b []float64) (sum float64) {
	for i := range a {
		sum += square(a[i] - b[i])
	}
	return sum
}

func square(x float64) float64 { return x * x }
'''))
COMB='''	var result = make([]float64, dim)
	for i := 0; i < dim; i++ {
		result[i] = (point1[i]*w1 + point2[i]*w2) / t
	}
	return result
'''
R('combine-append', (VEC, COMB, '''	var result = make([]float64, 0, dim)
	for i := 0; i < dim; i++ {
		result = append(result, (point1[i]*w1+point2[i]*w2)/t)
	}
	return result
'''))
R('combine-ratio', (VEC, COMB, '''	var r1, r2 = w1 / t, w2 / t
	var result = make([]float64, dim)
	for i, x := range point1 {
		result[i] = r1*x + r2*point2[i]
	}
	return result
'''))
R('combine-copy', (VEC, '	var dim = len(point1)\n', ''), (VEC, COMB, '''	var result = space.PointCopy(point1)
	for i := range result {
		result[i] += (point2[i] - result[i]) * w2 / t
	}
	return result
'''))
R('copy-append', (VEC, '''	var newPoint = make([]float64, len(point))
	copy(newPoint, point)
	return newPoint
''', '''	return append([]float64{}, point...)
'''))
R('copy-loop', (VEC, '''	copy(newPoint, point)
''', '''	for i := range point {
		newPoint[i] = point[i]
	}
'''))
R('dim-early', (VEC, '''	if len(data) > 0 {
		elemts := data[0].([]float64)
		dim = len(elemts)
	}
	return
''', '''	if len(data) == 0 {
		return 0
	}
	return len(data[0].([]float64))
'''))
R('cos-one-pass', (COS, '''	cos = ScalarProduct(v1, v2) / Norm(v1) / Norm(v2)
	return
''', '''	var dot, n1, n2 float64
	for i := range v1 {
		dot += v1[i] * v2[i]
		n1 += v1[i] * v1[i]
		n2 += v2[i] * v2[i]
	}
	return dot / (math.Sqrt(n1) * math.Sqrt(n2))
'''))
R('cos-sqrt-product', (COS, '''	cos = ScalarProduct(v1, v2) / Norm(v1) / Norm(v2)
	return
''', '''	return ScalarProduct(v1, v2) / math.Sqrt(ScalarProduct(v1, v1)*ScalarProduct(v2, v2))
'''))
BUF='core/buffer.go'
R('buf-ring-mod', (BUF, '''	if s.position == s.size {
		s.position = 0
	}

	if s.position < len(data) {
		data[s.position] = elemt
	} else {
		data = append(data, elemt)
	}

	s.position++

	return data
''','''	if len(data) < s.size {
		data = append(data, elemt)
	} else {
		data[s.position] = elemt
	}
	if s.position++; s.position >= s.size {
		s.position = 0
	}
	return data
'''), (BUF, '&fixedSizeStrategy{size, size}', '&fixedSizeStrategy{size: size}'))
R('buf-ring-mod2', (BUF, '''	if s.position < len(data) {
		data[s.position] = elemt
	} else {
		data = append(data, elemt)
	}

	s.position++

	return data
''','''	defer func() { s.position++ }()
	if s.position >= len(data) {
		return append(data, elemt)
	}
	data[s.position] = elemt
	return data
'''))
R('buf-apply-inline', (BUF, '''	for b.applyNext() {
	}
	return
''','''	for {
		select {
		case elmt := <-b.pipe:
			b.store(elmt)
		default:
			return nil
		}
	}
'''), (BUF, '''		b.data = b.strategy.push(b.data, elmt)
	}
	return
}

// Data''', '''		b.store(elmt)
	}
	return
}

func (b *DataBuffer) store(elmt Elemt) {
	b.data = b.strategy.push(b.data, elmt)
}

// Data'''))
R('buf-apply-push', (BUF, '''		if ok {
			b.data = b.strategy.push(b.data, elmt)
		}
''','''		if ok {
			_ = b.Push(elmt, false)
		}
'''))
R('buf-new-if', (BUF, '''	switch {
	case size > len(data):
		// fixed size buffer, less data than buffer size
		db.strategy = &fixedSizeStrategy{size, len(data)}
		db.data = make([]Elemt, len(data), size)
		copy(db.data[:len(data)], data)

	case size > 0:
		// fixed size buffer, more data than buffer size
		db.strategy = &fixedSizeStrategy{size, size}
		db.data = make([]Elemt, size)
		copy(db.data, data[len(data)-size:])

	default:
		// infinite buffer
		db.strategy = &infiniteSizeStrategy{}
		db.data = make([]Elemt, len(data))
		copy(db.data, data)
	}
''','''	if size > 0 {
		if len(data) > size {
			data = data[len(data)-size:]
		}
		db.strategy = &fixedSizeStrategy{size: size, position: len(data)}
	} else {
		db.strategy = &infiniteSizeStrategy{}
	}
	db.data = append([]Elemt{}, data...)
'''))
R('impl-push-var', ('kmeans/impl.go', '''	return impl.buffer.Push(elemt, model.Status().Alive())
''','''	var status = model.Status().Value
	var stage = status == core.Ready || status == core.Running || status == core.Idle
	return impl.buffer.Push(elemt, stage)
'''))
R('impl-iter-vars', ('kmeans/impl.go', '''	return impl.strategy.Iterate(model.Space(), model.Centroids(), impl.buffer.Data()),
		nil,
		impl.buffer.Apply()
''','''	var data = impl.buffer.Data()
	clust = impl.strategy.Iterate(model.Space(), model.Centroids(), data)
	err = impl.buffer.Apply()
	return
'''))
MCF='mcmc/conf.go'; CCF='core/conf.go'; SCF='streaming/conf.go'; SAL='streaming/algo.go'
R('conf-mcmc-early', (MCF, '''	if conf.InitK < 1 {
		err = fmt.Errorf("Illegal value for K: %v", conf.InitK)
	}
	if err == nil && conf.InitK > conf.MaxK && conf.MaxK != 0 {
		err = fmt.Errorf("Illegal value for Max K / Init K: %v / %v", conf.MaxK, conf.InitK)
	}
	return
''','''	switch {
	case conf.InitK <= 0:
		return fmt.Errorf("Illegal value for K: %v", conf.InitK)
	case conf.InitK > conf.MaxK:
		return fmt.Errorf("Illegal value for Max K / Init K: %v / %v", conf.MaxK, conf.InitK)
	}
	return nil
'''))
R('conf-ctrl-table', (CCF, '''	if conf.IterPerData < 0 {
		err = errors.New("IterPerData must be greater or equal than 1")
	}
	if err == nil && conf.DataPerIter < 0 {
		err = errors.New("DataPerIter must be greater or equal than 1")
	}
	if err == nil && conf.IterFreq < 0 {
		err = errors.New("Iteration frequency must be greater or equal than 0")
	}
	if err == nil && conf.Timeout < 0 {
		err = errors.New("Timeout must be greater or equal than 0")
	}
	if err == nil && conf.Iter < 0 {
		err = errors.New("Iter must be greater or equal than 0")
	}
	return
''','''	var check = func(ok bool, msg string) {
		if !ok && err == nil {
			err = errors.New(msg)
		}
	}
	check(conf.IterPerData >= 0, "IterPerData must be positive")
	check(conf.DataPerIter >= 0, "DataPerIter must be positive")
	check(conf.IterFreq >= 0, "IterFreq must be positive")
	check(conf.Timeout >= 0, "Timeout must be positive")
	check(conf.Iter >= 0, "Iter must be positive")
	return
'''))
R('conf-stream-late', (SAL, '''	if conf.BufferSize < len(data) {
		panic("buffer size must be greater than initial data")
	}
	var impl = getImpl(conf, data)
	return core.NewAlgo(&conf, &impl, space)
''','''	if err := conf.Verify(); err != nil {
		panic(err)
	}
	if size := conf.BufferSize; size < len(data) {
		panic("buffer size must be greater than initial data")
	}
	var impl = NewImpl(conf, data)
	var algo = core.NewAlgo(&conf, &impl, space)
	return algo
'''))
R('conf-mcmc-helper', (MCF, '''	if conf.MaxK == 0 {
		conf.MaxK = 16
	}
	if conf.B == 0 {
		conf.B = 1
	}
''','''	if conf.B == 0 {
		conf.B = 1
	}
	setInt(&conf.MaxK, 16)
'''),(MCF,'','''
func setInt(p *int, value int) {
	if *p == 0 {
		*p = value
	}
}
'''))
R('fin-early', ('core/finish.go', '''	if i.Iter > 0 || i.IterPerData > 0 {
		var rf = ocm.RuntimeFigures()
		var iterations = rf[Iterations]
		var pushedData = rf[PushedData]

		cond = int(iterations) >= (i.Iter + int(pushedData)*i.IterPerData)
	}
	return
''', '''	if i.Iter <= 0 && i.IterPerData <= 0 {
		return false
	}
	var rf = ocm.RuntimeFigures()
	return !(int(rf[Iterations]) < i.limit(int(rf[PushedData])))
'''), ('core/finish.go', '', '''
func (i IterFinishing) limit(pushed int) int { return pushed*i.IterPerData + i.Iter }
'''))
R('fin-and-return', ('core/finish.go', '''	for _, finishing := range and.Finishings {
		cond = IsFinished(finishing, ocm)
		if !cond {
			break
		}
	}
	return
''', '''	for i := range and.Finishings {
		if !IsFinished(and.Finishings[i], ocm) {
			return false
		}
	}
	return len(and.Finishings) > 0
'''))
R('fin-or-flag', ('core/finish.go', '''	for _, finishing := range or.Finishings {
		cond = IsFinished(finishing, ocm)
		if cond {
			break
		}
	}
	return
''', '''	for i := 0; i < len(or.Finishings) && !cond; i++ {
		cond = IsFinished(or.Finishings[i], ocm)
	}
	return cond
'''))
R('fin-status-helper', ('core/finish.go', '''	cond = sf.Error && status.Error != nil
	if !cond && len(sf.Status) > 0 {
		for _, sfStatus := range sf.Status {
			if cond = (sfStatus == status.Value); cond {
				break
			}
		}
	}
	return
''', '''	if sf.Error && status.Error != nil {
		return true
	}
	return sf.has(status.Value)
'''), ('core/finish.go', '', '''
func (sf StatusFinishing) has(v ClustStatus) bool {
	for _, s := range sf.Status {
		if s == v {
			return true
		}
	}
	return false
}
'''))
R('run-loop', ('core/ctrl.go', '''	for err == nil && algo.Status().Value == Running && !IsFinished(finishing, algo) {
		select {''', '''	for {
		if err != nil || algo.Status().Value != Running {
			break
		}
		if IsFinished(finishing, algo) {
			break
		}
		select {'''))
R('run-split-cond', ('core/ctrl.go', '''	var finishing Finishing = NewIterFinishing(conf.Iter, conf.IterPerData)
	if conf.Finishing != nil {
		finishing = NewOrFinishing(finishing, conf.Finishing)
	}
''', '''	var finishing = IterFinishing{Iter: conf.Iter, IterPerData: conf.IterPerData}
'''), ('core/ctrl.go', '!IsFinished(finishing, algo) {', '!finishing.IsFinished(algo) && !IsFinished(conf.Finishing, algo) {'))
R('run-step', ('core/ctrl.go', '''			centroids, runtimeFigures, err = algo.impl.Iterate(
				NewSimpleOCModel(
					algo.conf, algo.space, algo.Status(), algo.RuntimeFigures(), algo.Centroids(),
				),
			)
''', '''			centroids, runtimeFigures, err = algo.step()
'''), ('core/ctrl.go', '', '''
func (algo *Algo) step() (Clust, RuntimeFigures, error) {
	var model = NewSimpleOCModel(algo.conf, algo.space, algo.Status(), algo.RuntimeFigures(), algo.Centroids())
	return algo.impl.Iterate(model)
}
'''))
R('push-split', ('core/ctrl.go', '''		var play = false
		algo.modelMutex.Lock()
		algo.pushedData++
		algo.lastDataTime = time.Now().Unix()
		var conf = algo.conf.Ctrl()
		if ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
			algo.newData = 0
			play = true
		} else {
			algo.newData++
		}
		algo.updateRuntimeFigures()
		algo.modelMutex.Unlock()
		// try to play if waiting
		if play {
			algo.playReady()
		}
''', '''		if algo.accepted(ready) {
			algo.playReady()
		}
'''), ('core/ctrl.go', '', '''
func (algo *Algo) accepted(ready bool) bool {
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.pushedData = algo.pushedData + 1
	algo.lastDataTime = time.Now().Unix()
	defer algo.updateRuntimeFigures()
	var needed = algo.conf.Ctrl().DataPerIter
	if !ready || needed <= 0 || algo.newData < needed {
		algo.newData++
		return false
	}
	algo.newData = 0
	return true
}
'''))
R('push-return', ('core/ctrl.go', '''	err = algo.impl.Push(elemt, algo)
	if err == nil {
''', '''	if err = algo.impl.Push(elemt, algo); err != nil {
		return err
	}
	{
'''))
R('cnt-inline', ('core/ctrl.go', '''	algo.centroids = centroids
	algo.runtimeFigures = runtimeFigures
	algo.updateRuntimeFigures()
''', '''	runtimeFigures[Iterations] = float64(algo.iterations)
	runtimeFigures[PushedData] = float64(algo.pushedData)
	runtimeFigures[LastDataTime] = float64(algo.lastDataTime)
	algo.runtimeFigures = runtimeFigures
	algo.centroids = centroids
'''))
R('cnt-reset-fn', ('core/ctrl.go', '''		algo.modelMutex.Lock()
		algo.pushedData = 0
		algo.duration = 0
		algo.lastDataTime = 0
		algo.iterations = 0
		algo.runtimeFigures = RuntimeFigures{}
		algo.updateRuntimeFigures()
		algo.modelMutex.Unlock()
''', '''		algo.reset()
'''), ('core/ctrl.go', '', '''
func (algo *Algo) reset() {
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.runtimeFigures = RuntimeFigures{}
	algo.duration, algo.lastDataTime = 0, 0
	algo.pushedData, algo.iterations = 0, 0
	algo.updateRuntimeFigures()
}
'''))
R('cnt-count-in-save', ('core/ctrl.go', '					algo.iterations++\n', ''), ('core/ctrl.go', '	algo.centroids = centroids\n	algo.runtimeFigures = runtimeFigures\n	algo', '	algo.iterations++\n	algo.centroids = centroids\n	algo.runtimeFigures = runtimeFigures\n	algo'))

# ---- mcmc
MI='mcmc/impl.go'; MS='mcmc/store.go'; MSQ='mcmc/seq.go'; MPR='mcmc/par.go'
R('mc-nextk-if', (MI, '''	switch {
	case newK < 1:
		return 1
	case newK > conf.MaxK:
		return conf.MaxK
	case newK > len(data):
		return len(data)
	default:
		return newK
	}
''', '''	if newK > conf.MaxK {
		newK = conf.MaxK
	}
	if newK > len(data) {
		newK = len(data)
	}
	if newK < 1 {
		newK = 1
	}
	return newK
'''))
R('mc-nextk-minus', (MI, 'var newK = k + []int{-1, 0, 1}[i]', 'var newK = k + i - 1'))
R('mc-alter-append', (MI, '''	var result = make(core.Clust, len(clust))

	for i, c := range clust {
		result[i] = impl.distrib.Sample(c, time)
	}

	return result
''', '''	var result = make(core.Clust, 0, len(clust))
	for _, c := range clust {
		result = append(result, impl.distrib.Sample(c, time))
	}
	return result
'''))
R('mc-alter-index', (MI, '''	for i, c := range clust {
		result[i] = impl.distrib.Sample(c, time)
	}
''', '''	for i := 0; i < len(clust); i++ {
		var altered = impl.distrib.Sample(clust[i], time)
		result[i] = altered
	}
'''))
R('mc-accept-split', (MI, '''	var rGibbs = lambda * (current.loss - prop.loss)
''', '''	var gain = current.loss - prop.loss
	var rGibbs = gain * lambda
'''), (MI, 'var rho = math.Exp(rGibbs + rInit + rProp)', 'var rho = math.Exp(rProp + rGibbs + rInit)'), (MI, 'return impl.uniform.Rand() < rho', '''var u = impl.uniform.Rand()
	if rho > u {
		return true
	}
	return false'''))
R('mc-accept-negated', (MI, '''	if impl.accept(conf, current, prop, time) {
		current = prop
		centroids = prop.centers
		impl.store.SetCenters(centroids)
		impl.acc++
	}

	return current, centroids
''', '''	if !impl.accept(conf, current, prop, time) {
		return current, centroids
	}
	impl.acc += 1
	impl.store.SetCenters(prop.centers)
	return prop, prop.centers
'''))
R('mc-proba-index', (MI, '''	for i, v := range x {
		p += impl.distrib.Pdf(mu[i], v, time)
	}
	return p
''', '''	for i := 0; i < len(x); i++ {
		p = p + impl.distrib.Pdf(mu[i], x[i], time)
	}
	return
'''))
R('mc-gen-if', (MS, '''	switch {
	case prevK < k:
		clust, err = store.addCenter(data, space, prevK, prev)

	case prevK > k:
		clust = store.delCenter(space, prevK, prev)

	case prevK == k:
		clust = prev
	}

	return
''', '''	if prevK == k {
		return prev, nil
	}
	if prevK > k {
		return store.delCenter(space, prevK, prev), nil
	}
	return store.addCenter(data, space, prevK, prev)
'''))
R('mc-del-two-loops', (MS, '''	for i := 0; i < prevK-1; i++ {
		if i < del {
			clust[i] = space.Copy(prev[i])
		} else {
			clust[i] = space.Copy(prev[i+1])
		}
	}
''', '''	for i := 0; i < del; i++ {
		clust[i] = space.Copy(prev[i])
	}
	for i := del + 1; i < prevK; i++ {
		clust[i-1] = space.Copy(prev[i])
	}
'''))
R('mc-get-found', (MS, '''	var centers, ok = store.centers[k]

	if !ok {
		return store.genCenters(data, space, k, clust)
	}

	return centers, nil
''', '''	if centers, found := store.centers[k]; found {
		return centers, nil
	}
	return store.genCenters(data, space, k, clust)
'''))
R('mc-getk-inline', (MI, '''	var centers, err = impl.store.GetCenters(data, space, k, centroids)
	if err != nil {
		k = current.k
		centers, _ = impl.store.GetCenters(data, space, k, centroids)
	}
	return k, centers
''', '''	if centers, err := impl.store.GetCenters(data, space, k, centroids); err == nil {
		return k, centers
	}
	centers, _ := impl.store.GetCenters(data, space, current.k, centroids)
	return current.k, centers
'''))
R('mc-init-early', (MI, '''	if err == nil {
		var data = impl.buffer.Data()
''', '''	if err != nil {
		return
	}
	{
		var data = impl.buffer.Data()
'''))
R('mc-strategy-direct', (MPR, '''	for i := 0; i < iter; i++ {
		model = core.NewSimpleOCModel(&kmeansConf, space, core.NewOCStatus(core.Created), core.RuntimeFigures{}, result)
		result, _, _ = impl.Iterate(model)
	}
''', '''	for iter > 0 {
		result, _, _ = impl.Iterate(core.NewSimpleOCModel(&kmeansConf, space, core.NewOCStatus(core.Created), core.RuntimeFigures{}, result))
		iter--
	}
'''))
R('mc-lambda-helper', (MI, 'var lambda = conf.Amp * math.Sqrt(float64(impl.dim+3)/float64(time))', 'var lambda = temperature(conf, impl.dim, time)'), (MI, '', '''
func temperature(conf Conf, dim, time int) float64 {
	return conf.Amp * math.Sqrt(float64(3+dim)/float64(time))
}
'''))

# ---- initializers
KI='kmeans/init.go'
R('ini-given-early', (KI, '''	err = check(k, elemts)

	if err == nil {
		centroids = make(core.Clust, k)
		for i := 0; i < k; i++ {
			centroids[i] = space.Copy(elemts[i])
		}
	}

	return
''', '''	if err = check(k, elemts); err != nil {
		return nil, err
	}
	for _, elemt := range elemts[:k] {
		centroids = append(centroids, space.Copy(elemt))
	}
	return centroids, nil
'''))
R('ini-given-range', (KI, '''		for i := 0; i < k; i++ {
			centroids[i] = space.Copy(elemts[i])
		}
''', '''		for i := range centroids {
			centroids[i] = space.Copy(elemts[i])
		}
'''))
R('ini-pp-append', (KI, '''		centroids = make(core.Clust, k)
		var draw = src.Intn(len(elemts))
		centroids[0] = space.Copy(elemts[draw])

		for i := 1; i < k && err == nil; i++ {
			centroids[i], err = PPIter(centroids[:i], elemts, space, src)
		}
''', '''		centroids = append(centroids, space.Copy(elemts[src.Intn(len(elemts))]))
		for i := 1; i < k; i++ {
			var next core.Elemt
			next, err = PPIter(centroids, elemts, space, src)
			if err != nil {
				return nil, err
			}
			centroids = append(centroids, next)
		}
'''))
R('ini-pp-early', (KI, '''		for i := 1; i < k && err == nil; i++ {
			centroids[i], err = PPIter(centroids[:i], elemts, space, src)
		}
''', '''		for i := 1; i < k; i++ {
			var next, drawErr = PPIter(centroids[:i], elemts, space, src)
			if drawErr != nil {
				return centroids, drawErr
			}
			centroids[i] = next
		}
'''))
R('ini-rand-bool', (KI, '''		var chosen = make(map[int]int)
		var i int

		for i < k {
			var choice = src.Intn(len(elemts))
			var _, found = chosen[choice]

			if !found {
				centroids[i] = space.Copy(elemts[choice])
				chosen[choice] = i
				i++
			}
		}
''', '''		var chosen = make(map[int]bool)
		for i := 0; i < k; {
			var choice = src.Intn(len(elemts))
			if chosen[choice] {
				continue
			}
			chosen[choice] = true
			centroids[i] = space.Copy(elemts[choice])
			i++
		}
'''))
R('ini-rand-nested', (KI, '''		var i int

		for i < k {
			var choice = src.Intn(len(elemts))
			var _, found = chosen[choice]

			if !found {
				centroids[i] = space.Copy(elemts[choice])
				chosen[choice] = i
				i++
			}
		}
''', '''		for i := 0; i < k; i++ {
			var choice = src.Intn(len(elemts))
			for _, found := chosen[choice]; found; _, found = chosen[choice] {
				choice = src.Intn(len(elemts))
			}
			centroids[i] = space.Copy(elemts[choice])
			chosen[choice] = i
		}
'''))
R('ini-rand-slice', (KI, '''		var chosen = make(map[int]int)
''', '''		var chosen = make([]bool, len(elemts))
'''), (KI, '''			var _, found = chosen[choice]

			if !found {
				centroids[i] = space.Copy(elemts[choice])
				chosen[choice] = i
				i++
			}
''', '''			if !chosen[choice] {
				chosen[choice] = true
				centroids[i] = space.Copy(elemts[choice])
				i++
			}
'''))
R('ini-weight-cumul', (KI, '''	var cursor = rand.Float64() * sum
	for i, weight := range weights {
		if weight > 0 {
			idx = i
			if cursor < weight {
				break
			}
			cursor -= weight
		}
	}

	return idx, nil
''', '''	var target, passed = sum * rand.Float64(), 0.
	for i, weight := range weights {
		if weight <= 0 {
			continue
		}
		idx = i
		passed += weight
		if target < passed {
			return i, nil
		}
	}
	return idx, nil
'''))
R('ini-weight-return', (KI, '''			idx = i
			if cursor < weight {
				break
			}
			cursor -= weight
''', '''			if weight > cursor {
				return i, nil
			}
			idx, cursor = i, cursor-weight
'''))
R('ini-step-early', (KI, '''	return space.Copy(elemts[draw]), err
''', '''	if err != nil {
		return nil, err
	}
	return space.Copy(elemts[draw]), nil
'''))
R('ini-step-seq', (KI, '''	var _, dists = clust.ParMapLabel(elemts, space, runtime.NumCPU())
''', '''	var _, dists = clust.MapLabel(elemts, space)
'''), (KI, '	"runtime"\n', ''))
R('ini-names-switch', (KI, '''	return initializersByNames[strings.ToLower(name)]
''', '''	switch strings.ToLower(name) {
	case "given":
		return GivenInitializer
	case "pp":
		return PPInitializer
	case "rand":
		return RandInitializer
	}
	return nil
'''))

SI = 'streaming/impl.go'
R('st-inline-helpers', (SI, """		impl.AddOutlier(elemt)
""", """		impl.cards = append(impl.cards, 1)
		impl.clust = append(impl.clust, elemt)
"""), (SI, """	impl.UpdateMaxDistance(distance)
}

// AddOutlier""", """	if impl.maxDistance < distance {
		impl.maxDistance = distance
	}
}

// AddOutlier"""))
R('st-threshold-order', (SI, """		if threshold < relative {
			impl.AddCenter(elemt, distance)
		} else {
			impl.UpdateCenter(label, elemt, distance, space)
		}
""", """		if relative <= threshold {
			impl.UpdateCenter(label, elemt, distance, space)
		} else {
			impl.AddCenter(elemt, distance)
		}
"""))
R('st-copy-loop', (SI, """		copy(clust, impl.clust)
""", """		for i, c := range impl.clust {
			clust[i] = c
		}
"""))
R('st-copy-append', (SI, """		clust = make(core.Clust, len(impl.clust))
		copy(clust, impl.clust)
""", """		clust = append(core.Clust{}, impl.clust...)
"""))
R('st-process-switch', (SI, """	if impl.count >= impl.conf.OutAfter && relative > impl.conf.OutRatio {
		impl.AddOutlier(elemt)
	} else {
		var threshold = impl.norm.Rand()
		if threshold < relative {
			impl.AddCenter(elemt, distance)
		} else {
			impl.UpdateCenter(label, elemt, distance, space)
		}
	}
	impl.count++
""", """	impl.count++
	var outlier = relative > impl.conf.OutRatio && impl.count > impl.conf.OutAfter
	switch {
	case outlier:
		impl.AddOutlier(elemt)
	case impl.norm.Rand() < relative:
		impl.AddCenter(elemt, distance)
	default:
		impl.UpdateCenter(label, elemt, distance, space)
	}
"""))
R('st-init-direct', (SI, """		clust = core.Clust{centroids}
		for i := range clust {
			impl.AddCenter(clust[i], 0.)
		}
""", """		impl.AddOutlier(centroids)
		clust = core.Clust{centroids}
"""))
R('st-update-inplace', (SI, """	var cluster = space.Combine(impl.clust[label], impl.cards[label], elemt, 1)
	impl.clust[label] = cluster
	impl.cards[label]++
""", """	var weight = impl.cards[label]
	impl.clust[label] = space.Combine(elemt, 1, impl.clust[label], weight)
	impl.cards[label] = weight + 1
"""))
R('st-new-sequence', (SI, """	for i := range elemts {
		c <- elemts[i]
	}
	return Impl{
		c:    c,
		conf: conf,
		norm: distuv.Normal{
			Mu:    conf.Mu,
			Sigma: conf.Sigma,
			Src:   conf.RGen,
		},
	}
""", """	var norm = distuv.Normal{Mu: conf.Mu, Sigma: conf.Sigma, Src: conf.RGen}
	for _, elemt := range elemts {
		c <- elemt
	}
	return Impl{norm: norm, conf: conf, c: c}
"""))
R('st-rename', (SI, """func (impl *Impl) GetRelativeDistance(distance float64) float64 {
	if impl.maxDistance == 0 {
		impl.maxDistance = distance
	}
	return distance / impl.maxDistance
}
""", """func (impl *Impl) GetRelativeDistance(distance float64) float64 {
	var max = impl.maxDistance
	if max == 0 {
		max = distance
		impl.maxDistance = max
	}
	return distance / max
}
"""))
R('st-push-return', (SI, """	case impl.c <- elemt:
	default:
		err = errors.New("buffer is full")
	}
	return
""", """	case impl.c <- elemt:
		return nil
	default:
	}
	return errors.New("buffer is full")
"""))
R('st-iterate-early', (SI, """		clust = make(core.Clust, len(impl.clust))
		copy(clust, impl.clust)
	default:
	}
	runtimeFigures = impl.runtimeFigures()
	return
""", """		clust = make(core.Clust, len(impl.clust))
		copy(clust, impl.clust)
		return clust, core.RuntimeFigures{MaxDistance: impl.maxDistance}, nil
	default:
		return nil, impl.runtimeFigures(), nil
	}
"""))

TO, CT = 'core/timeout.go', 'core/ctrl.go'
R('wt-loop', (TO, """	for {
		if t.isFinished() {
			break
		} else if t.isTimeout(elapsedTime) {
			err = ErrTimeout
			break
		} else {
			time.Sleep(step)
		}
	}

	if err == nil {
		err = t.ocm.Status().Error
	}
	return
""", """	for !t.isFinished() {
		if t.isTimeout(elapsedTime) {
			return ErrTimeout
		}
		time.Sleep(step)
	}
	return t.ocm.Status().Error
"""))
R('wt-since', (TO, """	return t.duration > 0 && time.Now().After(lastTime)
""", """	return t.duration > 0 && lastTime.Before(time.Now())
"""))
R('wt-since2', (TO, """func (t *timeout) isTimeout(lastTime time.Time) bool {
	return t.duration > 0 && time.Now().After(lastTime)
""", """func (t *timeout) isTimeout(firstTime time.Time) bool {
	return t.duration > 0 && time.Now().Sub(firstTime) > t.duration
"""), (TO, "	var elapsedTime = time.Now().Add(t.duration)\n", "	var elapsedTime = time.Now()\n"))
R('wt-default-order', (TO, "NewStatusFinishing(true, Ready, Idle, Finished)", "StatusFinishing{Status: []ClustStatus{Finished, Idle, Ready}, Error: true}"))
R('wt-table', (CT, """	switch algo.Status().Value {
	case Running:
		if algo.CanNeverFinish(finishing, timeout) {
			err = ErrNeverFinish
		} else {
			err = WaitTimeout(finishing, timeout, algo)
		}
	case Idle:
		err = ErrIdle
	case Ready:
		fallthrough
	case Finished:
	default:
		err = ErrNotRunning
	}
	return
""", """	var status = algo.Status()
	switch status.Value {
	case Ready, Finished:
		return nil
	case Idle:
		return ErrIdle
	case Running:
	default:
		return ErrNotRunning
	}
	if algo.CanNeverFinish(finishing, timeout) {
		return ErrNeverFinish
	}
	return WaitTimeout(finishing, timeout, algo)
"""))
R('wt-never', (CT, """	var conf = algo.Conf().Ctrl()
	return finishing == nil && timeout <= 0 && conf.Finishing == nil && conf.Timeout <= 0 && conf.Iter == 0 && conf.IterPerData == 0
""", """	if finishing != nil || timeout > 0 {
		return false
	}
	var conf = algo.Conf().Ctrl()
	var bounded = conf.Iter != 0 || conf.IterPerData != 0 || conf.Timeout > 0
	return !bounded && conf.Finishing == nil
"""))
R('wt-timer-early', (TO, """	time.Sleep(t.duration)
	if t.Enabled() {
		t.interruption(ErrTimeout)
	}
""", """	time.Sleep(t.duration)
	if !t.Enabled() {
		return
	}
	_ = t.interruption(ErrTimeout)
"""))
R('wt-timer-local', (TO, """	result = &timeout{
		duration:     duration,
		enabled:      true,
		interruption: interruption,
	}
	go result.(*timeout).interrupt()
	return
""", """	var t = &timeout{duration: duration, interruption: interruption}
	t.enabled = true
	go t.interrupt()
	return t
"""))
R('wt-timer-func', (TO, """	go result.(*timeout).interrupt()
	return
""", """	var t = result.(*timeout)
	go func() {
		time.Sleep(duration)
		if t.Enabled() {
			interruption(ErrTimeout)
		}
	}()
	return
"""), (TO, """func (t *timeout) interrupt() {
	time.Sleep(t.duration)
	if t.Enabled() {
		t.interruption(ErrTimeout)
	}
}

""", ""))
R('wt-start2', (CT, """	if algo.timeout != nil {
		algo.timeout.Disable()
		algo.timeout = nil
	}
	var interruptionTimeout = algo.Conf().Ctrl().Timeout
	if interruptionTimeout > 0 {
		var timeout Timeout
""", """	var previous = algo.timeout
	algo.timeout = nil
	if previous != nil {
		previous.Disable()
	}
	if interruptionTimeout := algo.Conf().Ctrl().Timeout; interruptionTimeout > 0 {
		var timeout Timeout
"""))
R('wt-terminate', (CT, """	if timeout != nil {
		timeout.Disable()
	}
	if err != nil {
		algo.setStatus(NewOCStatusError(err), false)
	} else if algo.status.Value == Running {
		algo.setStatus(NewOCStatus(Ready), false)
	}
""", """	switch {
	case err != nil:
		algo.setStatus(NewOCStatusError(err), false)
	case algo.status.Value == Running:
		algo.setStatus(NewOCStatus(Ready), false)
	}
	if timeout != nil {
		timeout.Disable()
	}
"""))
UT = 'core/util.go'
R('fl-par-struct', (UT, """	var panics = make([]interface{}, degree)
""", """	type outcome struct{ panicked interface{} }
	var outcomes = make([]outcome, degree)
"""), (UT, "defer func() { panics[rank] = recover() }()", "defer func() { outcomes[rank].panicked = recover() }()"),
  (UT, """	for _, reason := range panics {
		if reason != nil {
			panic(reason)
		}
	}
""", """	for i := range outcomes {
		if reason := outcomes[i].panicked; reason != nil {
			panic(reason)
		}
	}
"""))
R('fl-par-helper', (UT, """	for _, reason := range panics {
		if reason != nil {
			panic(reason)
		}
	}
}""", """	raise(panics)
}

func raise(reasons []interface{}) {
	for i := 0; i < len(reasons); i++ {
		if reasons[i] == nil {
			continue
		}
		panic(reasons[i])
	}
}"""))
R('fl-par-mutex', (UT, """	var panics = make([]interface{}, degree)
""", """	var mutex sync.Mutex
	var failure interface{}
"""), (UT, "defer func() { panics[rank] = recover() }()", """defer func() {
			if reason := recover(); reason != nil {
				mutex.Lock()
				failure = reason
				mutex.Unlock()
			}
		}()"""),
  (UT, """	for _, reason := range panics {
		if reason != nil {
			panic(reason)
		}
	}
""", """	if failure != nil {
		panic(failure)
	}
"""))
R('fl-par-one-defer', (UT, """		defer wg.Done()
		defer func() { panics[rank] = recover() }()
""", """		defer func() {
			if reason := recover(); reason != nil {
				panics[rank] = reason
			}
			wg.Done()
		}()
"""))
R('fl-recovered', (CT, """	defer func() {
		if recovery := recover(); recovery != nil {
			err = fmt.Errorf("%v", recovery)
		}
	}()
	return algo.impl.Init(algo)
}
""", """	defer func() {
		if failure := asError(recover()); failure != nil {
			err = failure
		}
	}()
	centroids, err = algo.impl.Init(algo)
	return
}

func asError(recovery interface{}) error {
	if recovery == nil {
		return nil
	}
	return fmt.Errorf("%v", recovery)
}
"""), (CT, """		if recovery := recover(); recovery != nil {
			err = fmt.Errorf("%v", recovery)
		}
		algo.terminate(""", """		if failure := asError(recover()); failure != nil {
			err = failure
		}
		algo.terminate("""))
R('fl-recovered-err', (CT, """		if recovery := recover(); recovery != nil {
			err = fmt.Errorf("%v", recovery)
		}
		algo.terminate(""", """		switch recovery := recover().(type) {
		case nil:
		case error:
			err = recovery
		default:
			err = fmt.Errorf("%v", recovery)
		}
		algo.terminate("""))
R('fl-init-flip', (CT, """		if err == nil {
			algo.modelMutex.Lock()
			algo.centroids = centroids
			algo.modelMutex.Unlock()
			algo.setStatus(NewOCStatus(Ready), false)
		} else {
			algo.setStatus(NewOCStatusError(err), false)
		}
""", """		if err != nil {
			algo.setStatus(NewOCStatusError(err), false)
			return
		}
		algo.modelMutex.Lock()
		algo.centroids = centroids
		algo.modelMutex.Unlock()
		algo.setStatus(NewOCStatus(Ready), false)
"""))
R('fl-iter-break', (CT, "	for err == nil && algo.Status().Value", "	for algo.Status().Value"),
  (CT, "			duration = time.Now().Sub(start)\n			if err == nil {", "			if err != nil {\n				return\n			}\n			duration = time.Now().Sub(start)\n			{"))
R('fl-copy', (CT, """	impl, err := algo.impl.Copy(model)
	if err == nil {
		oc = NewAlgo(conf, impl, space)
	}
	return
}""", """	copied, err := algo.impl.Copy(model)
	if err != nil {
		return nil, err
	}
	return NewAlgo(conf, copied, space), nil
}"""))
R('fl-push', (CT, """	err = algo.impl.Push(elemt, algo)
	if err == nil {
		// the""", """	if err = algo.impl.Push(elemt, algo); err != nil {
		return err
	}
	{
		// the"""))
AL = 'core/algo.go'
KIM, MIM, SIM, BU = 'kmeans/impl.go', 'mcmc/impl.go', 'streaming/impl.go', 'core/buffer.go'
R('cp-new', (AL, """	algo = &Algo{
		conf:           conf,
		impl:           impl,
		space:          space,
		status:         OCStatus{Value: Created},
		statusChannel:  make(chan OCStatus),
		ackChannel:     make(chan bool),
		runtimeFigures: RuntimeFigures{},
	}

	return
""", """	algo = new(Algo)
	algo.conf, algo.impl, algo.space = conf, impl, space
	algo.status = NewOCStatus(Created)
	algo.statusChannel, algo.ackChannel = make(chan OCStatus), make(chan bool)
	algo.runtimeFigures = make(RuntimeFigures)
	return algo
"""))
R('cp-copy', (CT, """	var model = NewSimpleOCModel(conf, space, algo.Status(), algo.RuntimeFigures(), algo.Centroids())
	impl, err := algo.impl.Copy(model)
	if err == nil {
		oc = NewAlgo(conf, impl, space)
	}
	return
""", """	var copied Impl
	copied, err = algo.copyImpl(conf, space)
	if err != nil {
		return nil, err
	}
	return NewAlgo(conf, copied, space), nil
"""), (CT, "// Copy make a copy", """func (algo *Algo) copyImpl(conf Conf, space Space) (Impl, error) {
	return algo.impl.Copy(NewSimpleOCModel(conf, space, NewOCStatus(Created), RuntimeFigures{}, algo.Centroids()))
}

// Copy make a copy"""))
R('cp-kmeans', (KIM, """	var newConf = model.Conf().(*Conf)
	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer)
	return algo.Impl(), nil
""", """	var conf = *model.Conf().(*Conf)
	conf.Verify()
	var copied = getImpl(conf, impl.initializer, impl.buffer.Data(), nil)
	return &copied, nil
"""))
R('cp-mcmc', (MIM, """	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer, impl.distrib)
	return algo.Impl(), nil
""", """	var data = impl.buffer.Data()
	return NewAlgo(*newConf, model.Space(), data, impl.initializer, impl.distrib).Impl(), nil
"""))
R('cp-streaming', (SIM, """	var conf = model.Conf().(*Conf)
	var algo = NewAlgo(*conf, model.Space(), impl.clust)
	return algo.Impl(), nil
""", """	var conf = *model.Conf().(*Conf)
	var centers = make([]core.Elemt, len(impl.clust))
	for i, center := range impl.clust {
		centers[i] = center
	}
	var algo = NewAlgo(conf, model.Space(), centers)
	return algo.Impl(), nil
"""))
R('cp-streaming2', (SIM, """	for i := range elemts {
		c <- elemts[i]
	}
	return Impl{""", """	for _, elemt := range elemts {
		c <- elemt
	}
	return Impl{"""))
R('cp-wire', ('kmeans/algo.go', """	conf.Verify()
	var impl = getImpl(conf, initializer, data, args)
	return buildAlgo(conf, impl, space)
""", """	var verified = &conf
	verified.Verify()
	var impl = getImpl(*verified, initializer, data, args)
	return core.NewAlgo(verified, &impl, space)
"""), ('kmeans/algo.go', """func buildAlgo(conf Conf, impl Impl, space core.Space) (algo *core.Algo) {
	return core.NewAlgo(&conf, &impl, space)
}

""", ""))
R('cp-wire2', ('mcmc/algo.go', """	var implFunc func(Conf, core.Initializer, []core.Elemt, Distrib) Impl
	if conf.Par {
		implFunc = NewParImpl
	} else {
		implFunc = NewSeqImpl
	}
	var impl = implFunc(conf, initializer, data, distrib)
	return &impl
""", """	if !conf.Par {
		var impl = NewSeqImpl(conf, initializer, data, distrib)
		return &impl
	}
	var impl = NewParImpl(conf, initializer, data, distrib)
	return &impl
"""))

LD, MV = 'mcmc/latedistrib.go', 'mcmc/multivt.go'
R('ds-once', (LD, """	initialized bool
	mu          sync.Mutex
	distrib     Distrib""", """	once        sync.Once
	distrib     Distrib"""), (LD, """		initializer: initializer,
		mu:          sync.Mutex{},
""", """		initializer: initializer,
"""), (LD, """	d.mu.Lock()
	defer d.mu.Unlock()
	if !d.initialized {
		d.distrib = d.initializer(elemt)
		d.initialized = true
	}
""", """	d.once.Do(func() {
		d.distrib = d.initializer(elemt)
	})
"""))
R('ds-get', (LD, """	d.tryInitialize(mu)
	return d.distrib.Sample(mu, time)""", """	return d.get(mu).Sample(mu, time)"""), (LD, """	d.tryInitialize(mu)
	return d.distrib.Pdf(x, mu, time)""", """	var inner = d.get(mu)
	var p = inner.Pdf(x, mu, time)
	return p"""), (LD, """func (d *LateDistrib) tryInitialize(elemt core.Elemt) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if !d.initialized {
		d.distrib = d.initializer(elemt)
		d.initialized = true
	}
}""", """func (d *LateDistrib) get(elemt core.Elemt) Distrib {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.initialized {
		return d.distrib
	}
	var built = d.initializer(elemt)
	d.initialized = true
	d.distrib = built
	return built
}"""))
R('ds-pending', (LD, "	initialized bool\n", "	pending     bool\n"), (LD, "		initializer: initializer,\n", "		initializer: initializer,\n		pending:     true,\n"), (LD, """	if !d.initialized {
		d.distrib = d.initializer(elemt)
		d.initialized = true
	}
""", """	if d.pending {
		d.distrib = d.initializer(elemt)
		d.pending = false
	}
"""))
R('ds-pdf', (MV, """	for i := range fmu {
		f := fmu[i] - fx[i]
		shift += f * f
	}

	var scale = m.Nu / math.Sqrt(float64(time*20))
	var k = m.gammaFactor - math.Log(math.Pi*scale)*float64(m.Dim)/2.
	return k + (-m.power * math.Log(1.+shift/scale))
""", """	for i := 0; i < len(fmu); i++ {
		shift += (fx[i] - fmu[i]) * (fx[i] - fmu[i])
	}

	var scale = m.Nu * math.Pow(float64(20*time), -0.5)
	var norm = 0.5 * float64(m.Dim) * (math.Log(math.Pi) + math.Log(scale))
	return m.gammaFactor - norm - m.power*math.Log1p(shift/scale)
"""))
R('ds-sample', (MV, """	var student = m.normal.Rand(nil)

	for i := range student {
		student[i] = fmu[i] + student[i]*chiInverse*scale
	}

	return student
""", """	var normal = m.normal.Rand(nil)
	var student = make([]float64, len(normal))
	var factor = chiInverse * scale
	for i, x := range normal {
		student[i] = x*factor + fmu[i]
	}

	return student
"""))
R('ds-sample2', (MV, """	var scale = 1 / math.Sqrt(float64(time*20))

	var chiInverse = math.Sqrt(m.chi2.K / m.chi2.Rand())
	var student = m.normal.Rand(nil)

	for i := range student {
		student[i] = fmu[i] + student[i]*chiInverse*scale
	}
""", """	var chi = m.chi2.Rand()
	var student = m.normal.Rand(nil)
	var scale = math.Sqrt(m.Nu / (chi * float64(20*time)))
	for i := range student {
		student[i] *= scale
		student[i] += fmu[i]
	}
"""))
R('ds-new', (MV, """	m.power = (float64(m.Dim) + m.Nu) / 2.
	m.gammaFactor = math.Log(math.Gamma(m.power) / math.Gamma(float64(m.Nu)/2.))
""", """	m.power = 0.5*float64(conf.Dim) + m.Nu/2
	m.gammaFactor = math.Log(math.Gamma(m.power)) - math.Log(math.Gamma(m.Nu*0.5))
"""), (MV, """	m.setConf(conf)
	m.normal""", """	if conf.Nu == 0 {
		conf.Nu = 3
	}
	m.setConf(conf)
	m.normal"""))
R('ds-lgamma', (MV, "	m.gammaFactor = math.Log(math.Gamma(m.power) / math.Gamma(float64(m.Nu)/2.))\n", """	var a, _ = math.Lgamma(m.power)
	var b, _ = math.Lgamma(m.Nu / 2)
	m.gammaFactor = a - b
"""))

R('rn-seed', ('kmeans/conf.go', """		var seed = uint64(time.Now().UTC().Unix())
		conf.RGen = rand.New(rand.NewSource(seed))
""", """		conf.RGen = newGenerator()
"""), ('kmeans/conf.go', """// SetDefaultValues""", """func newGenerator() *rand.Rand {
	return rand.New(rand.NewSource(uint64(time.Now().UnixNano())))
}

// SetDefaultValues"""))
R('rn-early', ('mcmc/conf.go', """	if conf.RGen == nil {
		var seed = uint64(time.Now().UTC().Unix())
		conf.RGen = rand.New(rand.NewSource(seed))
	}
	if len""", """	conf.setGenerator()
	if len"""), ('mcmc/conf.go', "// SetDefaultValues", """func (conf *Conf) setGenerator() {
	if conf.RGen != nil {
		return
	}
	var source = rand.NewSource(uint64(time.Now().UTC().Unix()))
	conf.RGen = rand.New(source)
}

// SetDefaultValues"""))
R('rn-src', ('streaming/impl.go', """	return Impl{
		c:    c,
		conf: conf,
		norm: distuv.Normal{
			Mu:    conf.Mu,
			Sigma: conf.Sigma,
			Src:   conf.RGen,
		},
	}
""", """	var norm = distuv.Normal{Mu: conf.Mu, Sigma: conf.Sigma}
	norm.Src = conf.RGen
	return Impl{
		c:    c,
		conf: conf,
		norm: norm,
	}
"""))
R('rn-local', ('mcmc/seq.go', """	return Impl{
		buffer: ""","""	var src = conf.RGen
	return Impl{
		buffer: """), ('mcmc/seq.go', "Min: 0, Src: conf.RGen}", "Min: 0, Src: src}"), ('mcmc/seq.go', "NewCenterStore(conf.RGen)", "NewCenterStore(src)"))
R('rn-t', (MV, """	m.normal, _ = distmv.NewNormal(mu, sigma, m.RGen)
	m.chi2 = &distuv.ChiSquared{K: m.Nu, Src: m.RGen}
""", """	var src rand.Source = m.RGen
	m.normal, _ = distmv.NewNormal(mu, sigma, src)
	m.chi2 = &distuv.ChiSquared{K: m.Nu, Src: src}
"""))
R('rn-cpu', ('kmeans/init.go', "	var _, dists = clust.ParMapLabel(elemts, space, runtime.NumCPU())", "	var degree = runtime.NumCPU()\n	var _, dists = clust.ParMapLabel(elemts, space, degree)"))
R('rn-time', ('core/timeout.go', "	return t.duration > 0 && time.Now().After(lastTime)", "	var now = time.Now()\n	return t.duration > 0 && lastTime.Before(now)"))

CO = 'dtw/cost.go'
R('dt-min', (CO, """	switch {
	case v1 <= v2 && v1 <= v3:
		return v1
	case v2 <= v3:
		return v2
	default:
		return v3
	}
}

func decr""", """	var r = v1
	if v2 < r {
		r = v2
	}
	if v3 < r {
		r = v3
	}
	return r
}

func decr"""))
R('dt-decr', (CO, """	switch {
	case ul <= u && ul <= l:
		return i1 - 1, i2 - 1
	case l <= u:
		return i1 - 1, i2
	default:
		return i1, i2 - 1
	}
""", """	if ul <= u && ul <= l {
		return i1 - 1, i2 - 1
	}
	if u < l {
		return i1, i2 - 1
	}
	return i1 - 1, i2
"""))
R('dt-bounds', (CO, """		var i2l = 0
		if !cumCost.inWindow(i1, i2l) {
			i2l = i1 - cumCost.window
		}
		var i2r = len(cumCost.s2) - 1
		if !cumCost.inWindow(i1, i2r) {
			i2r = i1 + cumCost.window
		}
		for i2 := i2l; i2 <= i2r; i2++ {""", """		var from, to = i1 - cumCost.window, i1 + cumCost.window + 1
		if from < 0 {
			from = 0
		}
		if n := len(cumCost.s2); to > n {
			to = n
		}
		for i2 := from; i2 < to; i2++ {"""))
R('dt-skip', (CO, """		var i2l = 0
		if !cumCost.inWindow(i1, i2l) {
			i2l = i1 - cumCost.window
		}
		var i2r = len(cumCost.s2) - 1
		if !cumCost.inWindow(i1, i2r) {
			i2r = i1 + cumCost.window
		}
		for i2 := i2l; i2 <= i2r; i2++ {
""", """		for i2 := range cumCost.s2 {
			if !cumCost.inWindow(i1, i2) {
				continue
			}
"""))
R('dt-cost', (CO, """			var cost = 0.
			var dist = space.PointDist(cumCost.s1[i1], cumCost.s2[i2])
			switch {
			case i1 == 0 && i2 == 0:
				cost = dist
			case i1 == 0:
				cost = cumCost.Get(i1, i2-1) + dist
			case i2 == 0:
				cost = cumCost.Get(i1-1, i2) + dist
			default:
				var l, u, ul = cumCost.neighborCosts(i1, i2)
				cost = min(ul, u, l) + dist
			}
			cumCost.values[i] = cost
""", """			cumCost.values[i] = space.PointDist(cumCost.s2[i2], cumCost.s1[i1]) + cumCost.before(i1, i2)
"""), (CO, "func (cumCost *CumCostMatrix) computePath", """func (cumCost *CumCostMatrix) before(i1, i2 int) float64 {
	if i1 > 0 && i2 > 0 {
		var l, u, ul = cumCost.neighborCosts(i1, i2)
		return min(ul, u, l)
	}
	if i1 > 0 {
		return cumCost.Get(i1-1, i2)
	}
	if i2 > 0 {
		return cumCost.Get(i1, i2-1)
	}
	return 0
}

func (cumCost *CumCostMatrix) computePath"""))
R('dt-index', (CO, "	return i*cumCost.stride1 + j\n", "	return j + cumCost.stride1*i\n"))
R('dt-wide', (CO, """	if maxWindow < longest {
		cumCost.stride1 = maxWindow
	} else {
		cumCost.stride1 = longest
	}
""", """	cumCost.stride1 = longest
	if maxWindow < cumCost.stride1 {
		cumCost.stride1 = maxWindow
	}
"""))
R('dt-path', (CO, """	for i1 > 0 || i2 > 0 {
		cumCost.path = append(cumCost.path, Ends{i1, i2})
		switch {
		case i1 == 0:
			i2--
		case i2 == 0:
			i1--
		default:
			var l, u, ul = cumCost.neighborCosts(i1, i2)
			i1, i2 = decrPath(ul, u, l, i1, i2)
		}
	}
	cumCost.path = append(cumCost.path, Ends{0, 0})
""", """	var path = make([]Ends, 0, i1+i2+1)
	for i1 != 0 || i2 != 0 {
		path = append(path, Ends{End0: i1, End1: i2})
		if i1 == 0 {
			i2--
			continue
		}
		if i2 == 0 {
			i1--
			continue
		}
		var l, u, ul = cumCost.neighborCosts(i1, i2)
		i1, i2 = decrPath(ul, u, l, i1, i2)
	}
	cumCost.path = append(path, Ends{})
"""), (CO, "	cumCost.path = make([]Ends, 0, i1+i2)\n", ""))
R('dt-path2', (CO, """	for i1 > 0 || i2 > 0 {
		cumCost.path = append(cumCost.path, Ends{i1, i2})
""", """	for {
		cumCost.path = append(cumCost.path, Ends{i1, i2})
		if i1 == 0 && i2 == 0 {
			return
		}
"""), (CO, "	cumCost.path = append(cumCost.path, Ends{0, 0})\n", ""))
R('dt-dist', ('dtw/series.go', """	var dtw = NewDTWWindow(s1, s2, space.innerSpace, space.window)
	return dtw.Dist()
""", """	var cost = NewCumCostMatrix(s1, s2, space.innerSpace, space.window)
	return cost.Get(len(s1)-1, len(s2)-1)
"""))
R('dt-new', ('dtw/dtw.go', """	var dtw = DTW{
		s1:     s1,
		s2:     s2,
		space:  space,
		window: window,
	}
	var cost = NewCumCostMatrix(s1, s2, space, window)
	dtw.path = cost.Path()
	dtw.dist = cost.Get(len(s1)-1, len(s2)-1)
	return dtw
""", """	var cost = NewCumCostMatrix(s1, s2, space, window)
	var end0, end1 = len(s1) - 1, len(s2) - 1
	return DTW{
		s1:     s1,
		s2:     s2,
		space:  space,
		window: window,
		path:   cost.Path(),
		dist:   cost.Get(end0, end1),
	}
"""))
R('dt-local', (CO, "	var space = cumCost.space\n", ""), (CO, "var dist = space.PointDist", "var dist = cumCost.space.PointDist"))
R('dt-abs', (CO, "	return i-j <= cumCost.window && j-i <= cumCost.window\n", """	if i < j {
		i, j = j, i
	}
	return i-j <= cumCost.window
"""))
R('dt-ravel', (CO, """	if i > cumCost.window {
		return cumCost.index(i, j-i+cumCost.window)
	}
	return cumCost.index(i, j)
""", """	if d := i - cumCost.window; d > 0 {
		j -= d
	}
	return cumCost.index(i, j)
"""))

IN = 'dtw/interpolate.go'
DT = 'dtw/dtw.go'
R('av-search', (IN, "	for i, j := 1, 1; i < last; i++ {\n		var x = i * shrinkFactor\n		for ; x > idx[j]; j++ {\n		}\n", "	for i := 1; i < last; i++ {\n		var x = i * shrinkFactor\n		var j = 1\n		for idx[j] < x {\n			j++\n		}\n"))
R('av-outer', (IN, "	for i, j := 1, 1; i < last; i++ {\n		var x = i * shrinkFactor\n		for ; x > idx[j]; j++ {\n		}\n", "	var j = 1\n	for i := 1; i < last; i++ {\n		var x = shrinkFactor * i\n		for x > idx[j] {\n			j++\n		}\n"))
R('av-prev', (IN, "	for i, j := 1, 1; i < last; i++ {\n		var x = i * shrinkFactor\n		for ; x > idx[j]; j++ {\n		}\n		if idx[j] == x {\n			result[i] = s[j]\n		} else {\n			result[i] = space.PointCombine(s[j-1], idx[j]-x, s[j], x-idx[j-1])\n		}\n", "	for i, j := 1, 0; i < last; i++ {\n		var x = i * shrinkFactor\n		for x > idx[j+1] {\n			j++\n		}\n		var before, after = x - idx[j], idx[j+1] - x\n		if after == 0 {\n			result[i] = s[j+1]\n			continue\n		}\n		result[i] = space.PointCombine(s[j], after, s[j+1], before)\n"))
R('av-helper', (IN, "		if idx[j] == x {\n			result[i] = s[j]\n		} else {\n			result[i] = space.PointCombine(s[j-1], idx[j]-x, s[j], x-idx[j-1])\n		}\n	}\n	return result\n}\n", "		result[i] = between(s, idx, j, x, space)\n	}\n	return result\n}\n\nfunc between(s [][]float64, idx []int, j, x int, space PointSpace) []float64 {\n	if idx[j] == x {\n		return s[j]\n	}\n	return space.PointCombine(s[j-1], idx[j]-x, s[j], x-idx[j-1])\n}\n"))
R('av-swap', (IN, "space.PointCombine(s[j-1], idx[j]-x, s[j], x-idx[j-1])", "space.PointCombine(s[j], x-idx[j-1], s[j-1], idx[j]-x)"))
R('av-dba', (DT, """	var dba = make([][]float64, len(dtw.path))
	var idx = make([]int, len(dtw.path))
	for i := range dtw.path {
		var ends = dtw.path[len(dtw.path)-1-i]
		dba[i] =""", """	var n = len(dtw.path)
	var dba, idx = make([][]float64, n), make([]int, n)
	for i, last := 0, n-1; i < n; i++ {
		var ends = dtw.path[last-i]
		dba[i] ="""))
R('av-back', (DT, """	for i := range dtw.path {
		var ends = dtw.path[len(dtw.path)-1-i]
""", """	for k, ends := range dtw.path {
		var i = len(dtw.path) - 1 - k
"""))
R('av-append', (DT, """	var dba = make([][]float64, len(dtw.path))
	var idx = make([]int, len(dtw.path))
	for i := range dtw.path {
		var ends = dtw.path[len(dtw.path)-1-i]
		dba[i] = dtw.space.PointCombine(dtw.s1[ends.End0], w1, dtw.s2[ends.End1], w2)
		idx[i] = ends.End0*w1 + ends.End1*w2
""", """	var dba = make([][]float64, 0, len(dtw.path))
	var idx []int
	for i := len(dtw.path) - 1; i >= 0; i-- {
		var ends = dtw.path[i]
		dba = append(dba, dtw.space.PointCombine(dtw.s1[ends.End0], w1, dtw.s2[ends.End1], w2))
		idx = append(idx, w1*ends.End0+w2*ends.End1)
"""))
R('av-direct', (DT, "	return dtw.interpolate(dba, idx, w1+w2)\n", "	return Interpolate(dba, idx, w1+w2, dtw.space)\n"), (DT, """func (dtw *DTW) interpolate(ts [][]float64, idx []int, shrinkFactor int) [][]float64 {
	return Interpolate(ts, idx, shrinkFactor, dtw.space)
}
""", ""))
R('av-resize', (IN, """	var idx = make([]int, len(s))
	for i := range idx {
		idx[i] = i * (size - 1)
	}
	var resized = Interpolate(s, idx, len(s)-1, space)
	return resized
""", """	var n = len(s)
	var idx = make([]int, n)
	var step = size - 1
	for i := 0; i < n; i++ {
		idx[i] = step * i
	}
	return Interpolate(s, idx, n-1, space)
"""))
R('av-shrink', (IN, """	switch {
	case window > 0 && l1 > l2+window:
		sl1 = Resize(s1, l2+window, space)
		sl2 = s2
	case window > 0 && l2 > l1+window:
		sl1 = s1
		sl2 = Resize(s2, l1+window, space)
	default:
		sl1 = s1
		sl2 = s2
	}
	return
""", """	if window <= 0 {
		return s1, s2
	}
	if l1-l2 > window {
		return Resize(s1, l2+window, space), s2
	}
	if max := l1 + window; l2 > max {
		return s1, Resize(s2, max, space)
	}
	return s1, s2
"""))
R('av-combine', ('dtw/series.go', """	var dtw = NewDTWWindow(s1, s2, space.innerSpace, space.window)
	return dtw.DBA(weight1, weight2)
""", """	return NewDTWWindow(s1, s2, space.innerSpace, space.window).DBA(weight1, weight2)
"""))
R('av-series', ('dtw/series.go', "	var e1 = elemt1.([][]float64)\n	var e2 = elemt2.([][]float64)\n	return ShrinkLongest(e1, e2, space.innerSpace, space.window)", "	var longest, shortest = ShrinkLongest(elemt1.([][]float64), elemt2.([][]float64), space.innerSpace, space.window)\n	return longest, shortest"))

# edits of the kinds a maintainer makes, several at once
AL, MO, CT, TI, FI, BU, CL, UT = ('core/' + x + '.go' for x in ('algo', 'model', 'ctrl', 'timeout', 'finish', 'buffer', 'clustering', 'util'))
R('r2-status-helper', (AL, """	if safe {
		algo.statusMutex.Lock()
		algo.status = status
		algo.statusMutex.Unlock()
	} else {
		algo.status = status
	}
	algo.notifChannel <- status
}
""", """	if !safe {
		algo.changeStatus(status)
		return
	}
	algo.statusMutex.Lock()
	algo.status = status
	algo.statusMutex.Unlock()
	algo.notifChannel <- status
}

// changeStatus is used by callers which hold the lock
func (algo *Algo) changeStatus(status OCStatus) {
	algo.status = status
	algo.notifChannel <- status
}
"""), (MO, """	algo.modelMutex.RLock()
	defer algo.modelMutex.RUnlock()
	return algo.centroids
""", """	algo.modelMutex.RLock()
	centroids = algo.centroids
	algo.modelMutex.RUnlock()
	return
"""), (CL, """	for i := 0; i < len(*c); i++ {
		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
			min = d
			label = i
		}
	}

	return label, min
""", """	for i, centroid := range *c {
		var d = space.Dist(elemt, centroid)
		if label >= 0 && d >= min {
			continue
		}
		min, label = d, i
	}
	return label, min
"""))
R('r2-receive', (AL, """	var status = <-algo.statusChannel
	algo.setStatus(status, true)
	if status.Value != Finished { // otherwise the client is freed once the run is over
		algo.ackChannel <- true
	}
""", """	var status = <-algo.statusChannel
	algo.setStatus(status, true)
	if status.Value == Finished {
		// the client is freed once the run is over
		return
	}
	algo.ackChannel <- true
"""), (CT, """			algo.setStatus(status, true)
			if status.Value == Idle {
				algo.ackChannel <- true
				algo.receiveStatus()
			}
""", """			algo.suspend(status)
"""), (CT, """func (algo *Algo) updateRuntimeFigures() {""", """// suspend takes a status received during the run
func (algo *Algo) suspend(status OCStatus) {
	algo.setStatus(status, true)
	if status.Value != Idle {
		return
	}
	algo.ackChannel <- true
	algo.receiveStatus()
}

func (algo *Algo) updateRuntimeFigures() {"""), ('core/par_loss.go', """			for i := range agg.losses {
				aggregate.losses[i] += agg.losses[i]
				aggregate.cards[i] += agg.cards[i]
			}
""", """			for i, loss := range agg.losses {
				aggregate.losses[i] += loss
			}
			for i, card := range agg.cards {
				aggregate.cards[i] += card
			}
"""))
R('r2-init-split', (CT, """	switch algo.status.Value {
	case Finished:
		algo.modelMutex.Lock()
		algo.pushedData = 0
		algo.duration = 0
		algo.lastDataTime = 0
		algo.iterations = 0
		algo.runtimeFigures = RuntimeFigures{}
		algo.updateRuntimeFigures()
		algo.modelMutex.Unlock()
		fallthrough
	case Created:
		if algo.status.Value == Created {
			algo.notifChannel = make(chan OCStatus)
			go algo.notificationLoop()
		}
		algo.setStatus(NewOCStatus(Initializing), false)
		var centroids Clust
		centroids, err = algo.initImpl()
		if err == nil {
			algo.modelMutex.Lock()
			algo.centroids = centroids
			algo.modelMutex.Unlock()
			algo.setStatus(NewOCStatus(Ready), false)
		} else {
			algo.setStatus(NewOCStatusError(err), false)
		}
	default:
		err = ErrAlreadyCreated
	}
	return
}
""", """	switch algo.status.Value {
	case Finished:
		algo.resetFigures()
	case Created:
		algo.notifChannel = make(chan OCStatus)
		go algo.notificationLoop()
	default:
		return ErrAlreadyCreated
	}
	algo.setStatus(NewOCStatus(Initializing), false)
	centroids, err := algo.initImpl()
	if err != nil {
		algo.setStatus(NewOCStatusError(err), false)
		return err
	}
	algo.modelMutex.Lock()
	algo.centroids = centroids
	algo.modelMutex.Unlock()
	algo.setStatus(NewOCStatus(Ready), false)
	return nil
}

// resetFigures before a new start
func (algo *Algo) resetFigures() {
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.pushedData, algo.iterations = 0, 0
	algo.duration = 0
	algo.lastDataTime = 0
	algo.runtimeFigures = RuntimeFigures{}
	algo.updateRuntimeFigures()
}
"""), ('core/par_assign.go', """	labels = make([]int, len(data))
	dists = make([]float64, len(data))
""", """	var size = len(data)
	labels, dists = make([]int, size), make([]float64, size)
"""))
R('r2-play', (CT, """	case Idle:
		algo.statusMutex.Unlock()
		algo.sendStatus(NewOCStatus(Running))
	case Finished:
		fallthrough
	case Created:
		err = algo.init()
		if err != nil {
			algo.statusMutex.Unlock()
			return
		}
		fallthrough
	case Ready:
		algo.start()
	case Running:
		algo.statusMutex.Unlock()
		err = ErrRunning
	}
	return
""", """	case Idle:
		algo.statusMutex.Unlock()
		algo.sendStatus(NewOCStatus(Running))
	case Finished, Created:
		if err = algo.init(); err == nil {
			algo.start()
		} else {
			algo.statusMutex.Unlock()
		}
	case Ready:
		algo.start()
	case Running:
		err = ErrRunning
		algo.statusMutex.Unlock()
	}
	return
"""), (CL, """		if cards[ix] == 0 {
			centroids[ix] = space.Copy(elemt)
			cards[ix] = 1
		} else {
			centroids[ix] = space.Combine(centroids[ix], cards[ix], elemt, 1)
			cards[ix]++
		}
	}

	return
}
""", """		centroids[ix] = add(centroids[ix], cards[ix], elemt, space)
		cards[ix]++
	}

	return
}

// add an element to an average
func add(mean Elemt, card int, elemt Elemt, space Space) Elemt {
	if card == 0 {
		return space.Copy(elemt)
	}
	return space.Combine(mean, card, elemt, 1)
}
"""))
R('r2-pause', (CT, """	if algo.status.Value == Running {
		algo.statusMutex.Unlock()
		if !algo.sendStatus(NewOCStatus(Idle)) {
			err = ErrNotRunning
		}
	} else {
		err = ErrNotRunning
		algo.statusMutex.Unlock()
	}
	return
""", """	var running = algo.status.Value == Running
	algo.statusMutex.Unlock()
	if !running || !algo.sendStatus(NewOCStatus(Idle)) {
		return ErrNotRunning
	}
	return nil
"""), (CT, """	switch algo.Status().Value {
	case Running:
		if algo.CanNeverFinish(finishing, timeout) {
			err = ErrNeverFinish
		} else {
			err = WaitTimeout(finishing, timeout, algo)
		}
	case Idle:
		err = ErrIdle
	case Ready:
		fallthrough
	case Finished:
	default:
		err = ErrNotRunning
	}
	return
""", """	switch algo.Status().Value {
	case Running:
		if algo.CanNeverFinish(finishing, timeout) {
			return ErrNeverFinish
		}
		return WaitTimeout(finishing, timeout, algo)
	case Idle:
		return ErrIdle
	case Ready, Finished:
		return nil
	}
	return ErrNotRunning
"""), ('kmeans/init.go', """	if k < 1 {
		err = errors.New("K is lower than 1")
	} else if len(elemts) < k {
		err = errors.New("less elements than k")
	}

	return
""", """	switch {
	case k < 1:
		return errors.New("K is lower than 1")
	case k > len(elemts):
		return errors.New("less elements than k")
	}
	return nil
"""))
R('r2-push', (CT, """	err = algo.impl.Push(elemt, algo)
	if err == nil {
		// the status""", """	if err = algo.impl.Push(elemt, algo); err != nil {
		return
	}
	{
		// the status"""), (CT, """		if ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
			algo.newData = 0
			play = true
		} else {
			algo.newData++
		}
		algo.updateRuntimeFigures()
""", """		algo.newData++
		if play = ready && conf.DataPerIter > 0 && conf.DataPerIter < algo.newData; play {
			algo.newData = 0
		}
		algo.updateRuntimeFigures()
"""), ('kmeans/impl.go', """	return impl.strategy.Iterate(model.Space(), model.Centroids(), impl.buffer.Data()),
		nil,
		impl.buffer.Apply()
""", """	clust = impl.strategy.Iterate(model.Space(), model.Centroids(), impl.buffer.Data())
	err = impl.buffer.Apply()
	return
"""))
R('r2-run', (CT, """			if err == nil {
				if centroids != nil { // an iteration has been executed
					algo.modelMutex.Lock()
					algo.iterations++
					algo.saveIterContext(
						centroids, runtimeFigures, duration,
					)
					algo.modelMutex.Unlock()
				}
				// temporize iteration
				if iterFreq > 0 { // with iteration freqency
					var diff = iterFreq - time.Now().Sub(lastIterationTime)
					time.Sleep(diff)
					lastIterationTime = time.Now()
				}
			}
""", """			if err != nil {
				continue
			}
			if centroids != nil { // an iteration has been executed
				algo.saveIteration(centroids, runtimeFigures, duration)
			}
			// temporize iteration
			if iterFreq > 0 { // with iteration freqency
				time.Sleep(iterFreq - time.Now().Sub(lastIterationTime))
				lastIterationTime = time.Now()
			}
"""), (CT, "func (algo *Algo) saveIterContext(", """func (algo *Algo) saveIteration(centroids Clust, figures RuntimeFigures, duration time.Duration) {
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.iterations++
	algo.saveIterContext(centroids, figures, duration)
}

func (algo *Algo) saveIterContext("""), ('mcmc/store.go', """	var centers, ok = store.centers[k]

	if !ok {
		return store.genCenters(data, space, k, clust)
	}

	return centers, nil
""", """	if centers, ok := store.centers[k]; ok {
		return centers, nil
	}
	return store.genCenters(data, space, k, clust)
"""))
R('r2-run2', (CT, """	for err == nil && algo.Status().Value == Running && !IsFinished(finishing, algo) {
		select {""", """	for {
		if err != nil || algo.Status().Value != Running || IsFinished(finishing, algo) {
			break
		}
		select {"""), (CT, """	var finishing Finishing = NewIterFinishing(conf.Iter, conf.IterPerData)
	if conf.Finishing != nil {
		finishing = NewOrFinishing(finishing, conf.Finishing)
	}
""", """	var finishing = runFinishing(conf)
"""), (CT, "func (algo *Algo) saveIterContext(", """func runFinishing(conf *CtrlConf) Finishing {
	var budget = NewIterFinishing(conf.Iter, conf.IterPerData)
	if conf.Finishing == nil {
		return budget
	}
	return NewOrFinishing(budget, conf.Finishing)
}

func (algo *Algo) saveIterContext("""), ('mcmc/store.go', """	switch {
	case prevK < k:
		clust, err = store.addCenter(data, space, prevK, prev)

	case prevK > k:
		clust = store.delCenter(space, prevK, prev)

	case prevK == k:
		clust = prev
	}

	return
""", """	if prevK < k {
		return store.addCenter(data, space, prevK, prev)
	}
	if prevK > k {
		return store.delCenter(space, prevK, prev), nil
	}
	return prev, nil
"""))
R('r2-terminate', (CT, """	select {
	// get client status if client quiered to stop or timeout interruption
	case status := <-algo.statusChannel:
		// the run is over: it can not be paused anymore
		if err == nil && status.Value == Finished {
			algo.setStatus(status, false)
		}
	default:
	}
	// free client ack channel
	select { // close ack channel
	case <-algo.ackChannel:
	default:
		close(algo.ackChannel)
	}
""", """	algo.lastRequest(err)
	algo.release()
"""), (CT, "func (algo *Algo) saveIterContext(", """// lastRequest gets client status if client quiered to stop or timeout interruption
func (algo *Algo) lastRequest(err error) {
	select {
	case status := <-algo.statusChannel:
		if err != nil || status.Value != Finished {
			return
		}
		algo.setStatus(status, false)
	default:
	}
}

// release the client that waits for the acknowledgement
func (algo *Algo) release() {
	select {
	case <-algo.ackChannel:
	default:
		close(algo.ackChannel)
	}
}

func (algo *Algo) saveIterContext("""), ('mcmc/impl.go', """	switch {
	case newK < 1:
		return 1
	case newK > conf.MaxK:
		return conf.MaxK
	case newK > len(data):
		return len(data)
	default:
		return newK
	}
""", """	if newK < 1 {
		return 1
	}
	if newK > conf.MaxK {
		return conf.MaxK
	}
	if n := len(data); newK > n {
		return n
	}
	return newK
"""))
R('r2-figures', (CT, """	if runtimeFigures == nil {
		runtimeFigures = RuntimeFigures{}
	}
	runtimeFigures[Duration] = float64(algo.duration + duration)
	algo.centroids = centroids
	algo.runtimeFigures = runtimeFigures
	algo.updateRuntimeFigures()
""", """	var figures = RuntimeFigures{}
	for name, value := range runtimeFigures {
		figures[name] = value
	}
	figures[Duration] = float64(algo.duration + duration)
	algo.runtimeFigures = figures
	algo.centroids = centroids
	algo.updateRuntimeFigures()
"""), (MO, """	figures = make(RuntimeFigures, len(algo.runtimeFigures))
	for name, value := range algo.runtimeFigures {
		figures[name] = value
	}
	return
""", """	return copyFigures(algo.runtimeFigures)
"""), (MO, "func (algo *Algo) Conf() Conf {", """func copyFigures(from RuntimeFigures) RuntimeFigures {
	var to = make(RuntimeFigures, len(from))
	for name := range from {
		to[name] = from[name]
	}
	return to
}

func (algo *Algo) Conf() Conf {"""), ('mcmc/impl.go', """	p = 0.
	for i, v := range x {
		p += impl.distrib.Pdf(mu[i], v, time)
	}
	return p
""", """	for i := range x {
		p += impl.distrib.Pdf(mu[i], x[i], time)
	}
	return
"""))
R('r2-wait', (TI, """	for {
		if t.isFinished() {
			break
		} else if t.isTimeout(elapsedTime) {
			err = ErrTimeout
			break
		} else {
			time.Sleep(step)
		}
	}

	if err == nil {
		err = t.ocm.Status().Error
	}
	return
""", """	for !t.isFinished() {
		if t.isTimeout(elapsedTime) {
			return ErrTimeout
		}
		time.Sleep(step)
	}
	return t.ocm.Status().Error
"""), (FI, """	for _, finishing := range or.Finishings {
		cond = IsFinished(finishing, ocm)
		if cond {
			break
		}
	}
	return
""", """	for i := range or.Finishings {
		if IsFinished(or.Finishings[i], ocm) {
			return true
		}
	}
	return false
"""), (FI, """	cond = sf.Error && status.Error != nil
	if !cond && len(sf.Status) > 0 {
		for _, sfStatus := range sf.Status {
			if cond = (sfStatus == status.Value); cond {
				break
			}
		}
	}
	return
""", """	if sf.Error && status.Error != nil {
		return true
	}
	for _, value := range sf.Status {
		if value == status.Value {
			return true
		}
	}
	return false
"""))
R('r2-and', (FI, """	for _, finishing := range and.Finishings {
		cond = IsFinished(finishing, ocm)
		if !cond {
			break
		}
	}
	return
""", """	for _, finishing := range and.Finishings {
		if !IsFinished(finishing, ocm) {
			return false
		}
	}
	return len(and.Finishings) > 0
"""), (FI, """	if i.Iter > 0 || i.IterPerData > 0 {
		var rf = ocm.RuntimeFigures()
		var iterations = rf[Iterations]
		var pushedData = rf[PushedData]

		cond = int(iterations) >= (i.Iter + int(pushedData)*i.IterPerData)
	}
	return
""", """	if i.Iter <= 0 && i.IterPerData <= 0 {
		return false
	}
	var figures = ocm.RuntimeFigures()
	var budget = i.Iter + i.IterPerData*int(figures[PushedData])
	return int(figures[Iterations]) >= budget
"""), (UT, """	for i := 0; i < degree; i++ {
		if i == degree-remainder {
			offset++
		}
		var end = start + offset
		if end > size {
			end = size
		}
		go launch(start, end, i)
		start = end
	}
""", """	for rank := 0; rank < degree; rank++ {
		var width = offset
		if rank >= degree-remainder {
			width = offset + 1
		}
		go launch(start, start+width, rank)
		start += width
	}
"""))
R('r2-buffer', (BU, """	select {
	case elmt, ok = <-b.pipe:
		if ok {
			b.data = b.strategy.push(b.data, elmt)
		}
	default:
	}

	return
""", """	select {
	case elmt, ok = <-b.pipe:
	default:
	}
	if ok {
		b.store(elmt)
	}
	return
"""), (BU, """	if running {
		b.pipe <- elmt
	} else {
		b.data = b.strategy.push(b.data, elmt)
	}
	return
}
""", """	if !running {
		b.store(elmt)
		return
	}
	b.pipe <- elmt
	return
}

func (b *DataBuffer) store(elmt Elemt) {
	b.data = b.strategy.push(b.data, elmt)
}
"""), (BU, """	if s.position == s.size {
		s.position = 0
	}

	if s.position < len(data) {
		data[s.position] = elemt
	} else {
		data = append(data, elemt)
	}

	s.position++

	return data
""", """	if len(data) < s.size {
		s.position++
		return append(data, elemt)
	}
	if s.position >= s.size {
		s.position = 0
	}
	data[s.position] = elemt
	s.position++
	return data
"""))
R('r2-conf', ('core/conf.go', """	conf.SetDefaultValues()
	if conf.IterPerData < 0 {
		err = errors.New("IterPerData must be greater or equal than 1")
	}
	if err == nil && conf.DataPerIter < 0 {
		err = errors.New("DataPerIter must be greater or equal than 1")
	}
	if err == nil && conf.IterFreq < 0 {
		err = errors.New("Iteration frequency must be greater or equal than 0")
	}
	if err == nil && conf.Timeout < 0 {
		err = errors.New("Timeout must be greater or equal than 0")
	}
	if err == nil && conf.Iter < 0 {
		err = errors.New("Iter must be greater or equal than 0")
	}
	return
""", """	conf.SetDefaultValues()
	switch {
	case conf.IterPerData < 0:
		err = errors.New("IterPerData must be greater or equal than 0")
	case conf.DataPerIter < 0:
		err = errors.New("DataPerIter must be greater or equal than 0")
	case conf.IterFreq < 0:
		err = errors.New("Iteration frequency must be greater or equal than 0")
	case conf.Timeout < 0:
		err = errors.New("Timeout must be greater or equal than 0")
	case conf.Iter < 0:
		err = errors.New("Iter must be greater or equal than 0")
	}
	return
"""), ('core/conf.go', """	err = conf.Verify()
	if err == nil {
		err = conf.Ctrl().Verify()
	}
	return
""", """	if err = conf.Verify(); err != nil {
		return
	}
	return conf.Ctrl().Verify()
"""), ('kmeans/algo.go', """	var implFunc func(Conf, core.Initializer, []core.Elemt, ...interface{}) Impl
	if conf.Par {
		implFunc = NewParImpl
	} else {
		implFunc = NewSeqImpl
	}
	var impl = implFunc(conf, initializer, data, args...)
	return impl
""", """	if conf.Par {
		return NewParImpl(conf, initializer, data, args...)
	}
	return NewSeqImpl(conf, initializer, data, args...)
"""))
R('r2-kmeans', ('kmeans/seq.go', """	for i := 0; i < len(result); i++ {
		if result[i] == nil {
			result[i] = centroids[i]
		}
	}
	return result
""", """	var built = make(core.Clust, len(result))
	for i, centroid := range result {
		if centroid != nil {
			built[i] = centroid
		} else {
			built[i] = centroids[i]
		}
	}
	return built
"""), ('core/par_dba.go', """		switch {
		case aggregate.cards[i] == 0:
			aggregate.dbas[i] = other.dbas[i]
			aggregate.cards[i] = other.cards[i]

		case other.cards[i] > 0:
			aggregate.dbas[i] = space.Combine(
				aggregate.dbas[i], aggregate.cards[i],
				other.dbas[i], other.cards[i],
			)
			aggregate.cards[i] += other.cards[i]
		}
""", """		var card, otherCard = aggregate.cards[i], other.cards[i]
		if otherCard == 0 {
			continue
		}
		if card == 0 {
			aggregate.dbas[i] = other.dbas[i]
		} else {
			aggregate.dbas[i] = space.Combine(aggregate.dbas[i], card, other.dbas[i], otherCard)
		}
		aggregate.cards[i] = card + otherCard
"""), ('core/par_dba.go', """	var result = make(Clust, len(aggr.dbas))
	for i := 0; i < len(data); i++ {
		if aggr.cards[i] > 0 {
			result[i] = aggr.dbas[i]
		} else {
			result[i] = data[i]
		}
	}
	return result, aggr.cards
""", """	var result = make(Clust, len(aggr.dbas))
	copy(result, data)
	for i, card := range aggr.cards {
		if card > 0 {
			result[i] = aggr.dbas[i]
		}
	}
	return result, aggr.cards
"""))
R('r2-initializers', ('kmeans/init.go', """		centroids = make(core.Clust, k)
		var draw = src.Intn(len(elemts))
		centroids[0] = space.Copy(elemts[draw])

		for i := 1; i < k && err == nil; i++ {
			centroids[i], err = PPIter(centroids[:i], elemts, space, src)
		}
""", """		centroids = make(core.Clust, 1, k)
		centroids[0] = space.Copy(elemts[src.Intn(len(elemts))])
		for len(centroids) < k && err == nil {
			var next core.Elemt
			next, err = PPIter(centroids, elemts, space, src)
			centroids = append(centroids, next)
		}
"""), ('kmeans/init.go', """			var choice = src.Intn(len(elemts))
			var _, found = chosen[choice]

			if !found {
				centroids[i] = space.Copy(elemts[choice])
				chosen[choice] = i
				i++
			}
""", """			var choice = src.Intn(len(elemts))
			if _, found := chosen[choice]; found {
				continue
			}
			chosen[choice] = i
			centroids[i] = space.Copy(elemts[choice])
			i++
"""))
R('r2-draw', ('kmeans/init.go', """	for _, x := range weights {
		sum += x
	}

	if sum == 0 {
		return 0, ErrNullSet
	}
""", """	sum = total(weights)
	if sum == 0 {
		return 0, ErrNullSet
	}
"""), ('kmeans/init.go', "var ErrNullSet =", """func total(weights []float64) (sum float64) {
	for i := range weights {
		sum += weights[i]
	}
	return
}

// ErrNullSet is returned when there is nothing to draw
var ErrNullSet ="""), ('mcmc/impl.go', """	if impl.accept(conf, current, prop, time) {
		current = prop
		centroids = prop.centers
		impl.store.SetCenters(centroids)
		impl.acc++
	}

	return current, centroids
""", """	if !impl.accept(conf, current, prop, time) {
		return current, centroids
	}
	impl.acc++
	impl.store.SetCenters(prop.centers)
	return prop, prop.centers
"""))
R('r2-mcmc', ('mcmc/impl.go', """	var l2b = math.Log(2 * conf.B)
	var rInit = l2b * float64(impl.dim*(current.k-prop.k))
	var lambda = conf.Amp * math.Sqrt(float64(impl.dim+3)/float64(time))
	var rGibbs = lambda * (current.loss - prop.loss)

	var rho = math.Exp(rGibbs + rInit + rProp)

	impl.lambda = lambda
	impl.rho = rho
	impl.rGibbs = rGibbs

	return impl.uniform.Rand() < rho
""", """	var rInit = math.Log(2*conf.B) * float64(impl.dim*(current.k-prop.k))
	impl.lambda = conf.Amp * math.Sqrt(float64(impl.dim+3)/float64(time))
	impl.rGibbs = impl.lambda * (current.loss - prop.loss)
	impl.rho = math.Exp(rInit + rProp + impl.rGibbs)
	return impl.rho > impl.uniform.Rand()
"""), ('mcmc/store.go', """	for i := 0; i < prevK-1; i++ {
		if i < del {
			clust[i] = space.Copy(prev[i])
		} else {
			clust[i] = space.Copy(prev[i+1])
		}
	}
	return
""", """	for i := range clust {
		var from = i
		if i >= del {
			from++
		}
		clust[i] = space.Copy(prev[from])
	}
	return
"""))
R('r2-mcmc2', ('mcmc/impl.go', """	k, centers := impl.getKCenters(conf, space, current, centroids, data)
	centers = impl.alter(conf, space, centers, time)
	centers = impl.strategy.Iterate(conf, space, centers, data, 1)
	return proposal{
		k:       k,
		centers: centers,
		loss:    impl.strategy.Loss(conf, space, centers, data),
		pdf:     impl.proba(conf, space, centers, centers, time),
	}
""", """	k, kept := impl.getKCenters(conf, space, current, centroids, data)
	var altered = impl.alter(conf, space, kept, time)
	return impl.newProposal(conf, space, k, impl.strategy.Iterate(conf, space, altered, data, 1), data, time)
"""), ('mcmc/impl.go', """		impl.current = proposal{
			k:       mcmcConf.InitK,
			centers: centroids,
			loss:    impl.strategy.Loss(*mcmcConf, space, centroids, data),
			pdf:     impl.proba(*mcmcConf, space, centroids, centroids, currentTime),
		}
""", """		impl.current = impl.newProposal(*mcmcConf, space, mcmcConf.InitK, centroids, data, currentTime)
"""), ('mcmc/impl.go', "func (impl *Impl) getKCenters(", """func (impl *Impl) newProposal(conf Conf, space core.Space, k int, centers core.Clust, data []core.Elemt, time int) (prop proposal) {
	prop.k = k
	prop.centers = centers
	prop.loss = impl.strategy.Loss(conf, space, centers, data)
	prop.pdf = impl.proba(conf, space, centers, centers, time)
	return
}

func (impl *Impl) getKCenters("""))

# --- r3: whole functions rewritten in another style
def FN(file, sig, new):
    s = open('/repo/' + file).read()
    i = s.index('func ' + sig)
    j = s.index('\n}\n', i) + 3
    return (file, s[i:j], new)
ALG='core/algo.go'; CTR='core/ctrl.go'; MOD='core/model.go'; FIN='core/finish.go'; TMO='core/timeout.go'

R('r3-loop', FN(ALG, '(algo *Algo) notificationLoop', """func (algo *Algo) notificationLoop() {
	var out = make(chan OCStatus)
	go algo.notifyAll(out)
	defer func() { close(out) }()
	var queue = make([]OCStatus, 0, 8)
	for {
		if len(queue) == 0 {
			var status, open = <-algo.notifChannel
			if !open {
				return
			}
			queue = append(queue, status)
			continue
		}
		select {
		case out <- queue[0]:
			queue = queue[1:]
		case status, open := <-algo.notifChannel:
			if !open {
				return
			}
			queue = append(queue, status)
		}
	}
}
"""), FN(ALG, '(algo *Algo) notifyAll', """func (algo *Algo) notifyAll(statuses <-chan OCStatus) {
	for {
		var status, open = <-statuses
		if !open {
			break
		}
		algo.notify(status)
	}
}
"""))

R('r3-setstatus', FN(ALG, '(algo *Algo) setStatus', """func (algo *Algo) setStatus(status OCStatus, safe bool) {
	if !safe {
		algo.assignStatus(status)
	} else {
		algo.lockedAssign(status)
	}
	algo.notifChannel <- status
}

func (algo *Algo) assignStatus(status OCStatus) {
	algo.status = status
}

func (algo *Algo) lockedAssign(status OCStatus) {
	algo.statusMutex.Lock()
	defer algo.statusMutex.Unlock()
	algo.assignStatus(status)
}
"""), FN(ALG, '(algo *Algo) notify(', """func (algo *Algo) notify(status OCStatus) {
	if notifier := algo.Conf().Ctrl().StatusNotifier; notifier != nil {
		notifier(algo, status)
	}
}
"""))

R('r3-push', FN(CTR, '(algo *Algo) Push', """func (algo *Algo) Push(elemt Elemt) error {
	if err := algo.impl.Push(elemt, algo); err != nil {
		return err
	}
	if algo.account(algo.Status().Value) {
		algo.playReady()
	}
	return nil
}

// account counts a push, and tells if the algorithm is to be played
func (algo *Algo) account(status ClustStatus) bool {
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.lastDataTime = time.Now().Unix()
	algo.pushedData += 1
	defer algo.updateRuntimeFigures()
	var threshold = algo.conf.Ctrl().DataPerIter
	if status != Ready || threshold <= 0 || algo.newData < threshold {
		algo.newData += 1
		return false
	}
	algo.newData = 0
	return true
}
"""))

R('r3-batch', FN(CTR, '(algo *Algo) Batch', """func (algo *Algo) Batch() error {
	_ = algo.Stop()
	if err := algo.Play(); err != nil {
		return err
	}
	if err := algo.Wait(nil, 0); err != nil {
		return err
	}
	// the run may have failed before the wait
	if status := algo.Status(); status.Error != nil {
		return status.Error
	}
	_ = algo.Stop()
	return nil
}
"""))

R('r3-init', FN(CTR, '(algo *Algo) init()', """func (algo *Algo) init() error {
	var value = algo.status.Value
	if value != Finished && value != Created {
		return ErrAlreadyCreated
	}
	if value == Finished {
		algo.reset()
	} else {
		algo.notifChannel = make(chan OCStatus)
		go algo.notificationLoop()
	}
	algo.setStatus(OCStatus{Value: Initializing}, false)
	var centroids, err = algo.initImpl()
	if err != nil {
		algo.setStatus(NewOCStatusError(err), false)
		return err
	}
	algo.publish(centroids)
	algo.setStatus(NewOCStatus(Ready), false)
	return nil
}

func (algo *Algo) reset() {
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.iterations, algo.pushedData = 0, 0
	algo.lastDataTime, algo.duration = 0, 0
	algo.runtimeFigures = make(RuntimeFigures, 4)
	algo.updateRuntimeFigures()
}

func (algo *Algo) publish(centroids Clust) {
	algo.modelMutex.Lock()
	algo.centroids = centroids
	algo.modelMutex.Unlock()
}
"""))

R('r3-play', FN(CTR, '(algo *Algo) Play', """func (algo *Algo) Play() (err error) {
	algo.ctrlMutex.Lock()
	defer algo.ctrlMutex.Unlock()
	algo.statusMutex.Lock()
	var value = algo.status.Value
	if value == Running {
		err = ErrRunning
	} else if value == Created || value == Finished {
		err = algo.init()
	}
	switch {
	case err != nil:
		algo.statusMutex.Unlock()
	case value == Idle:
		algo.statusMutex.Unlock()
		algo.sendStatus(NewOCStatus(Running))
	case algo.status.Value == Ready:
		algo.start()
	}
	return err
}
"""))

R('r3-start', FN(CTR, '(algo *Algo) start', """func (algo *Algo) start() {
	algo.cancelTimeout()
	if duration := algo.Conf().Ctrl().Timeout; duration > 0 {
		algo.timeout = algo.newTimeout(duration)
	}
	go algo.run(algo.timeout)
	algo.statusMutex.Unlock()
	_ = algo.sendStatus(NewOCStatus(Running))
}

func (algo *Algo) cancelTimeout() {
	if algo.timeout == nil {
		return
	}
	algo.timeout.Disable()
	algo.timeout = nil
}

// the timeout is evaluated with the control lock: it may be disabled once elapsed
func (algo *Algo) newTimeout(duration time.Duration) (timeout Timeout) {
	timeout = InterruptionTimeout(duration, func(err error) error {
		return algo.interrupt(err, timeout.Enabled)
	})
	return
}
"""))

R('r3-interrupt', FN(CTR, '(algo *Algo) interrupt', """func (algo *Algo) interrupt(interruption error, enabled func() bool) error {
	algo.ctrlMutex.Lock()
	defer algo.ctrlMutex.Unlock()
	algo.statusMutex.Lock()
	var on, value = enabled(), algo.status.Value
	if on && value == Ready {
		algo.setStatus(NewOCStatusError(interruption), false)
	}
	algo.statusMutex.Unlock()
	if !on || value == Ready {
		return nil
	}
	if value != Idle && value != Running {
		return ErrNotAlive
	}
	algo.sendStatus(NewOCStatusError(interruption))
	return algo.Status().Error
}
"""), FN(CTR, '(algo *Algo) Pause', """func (algo *Algo) Pause() error {
	algo.ctrlMutex.Lock()
	defer algo.ctrlMutex.Unlock()
	algo.statusMutex.Lock()
	var running = algo.status.Value == Running
	algo.statusMutex.Unlock()
	if running && algo.sendStatus(NewOCStatus(Idle)) {
		return nil
	}
	return ErrNotRunning
}
"""))

R('r3-terminate', FN(CTR, '(algo *Algo) terminate', """func (algo *Algo) terminate(err error, start time.Time, timeout Timeout) {
	algo.statusMutex.Lock()
	defer algo.statusMutex.Unlock()
	if timeout != nil {
		timeout.Disable()
	}
	switch {
	case err != nil:
		algo.setStatus(NewOCStatusError(err), false)
	case algo.status.Value == Running:
		algo.setStatus(NewOCStatus(Ready), false)
	}
	// wait a few between client time processing between releasing statusMutex and sendStatus
	time.Sleep(100 * time.Millisecond)
	algo.saveDuration(start)
	algo.answerPending(err != nil)
	algo.freeClient()
}

func (algo *Algo) saveDuration(start time.Time) {
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.duration += time.Since(start)
	algo.runtimeFigures[Duration] = float64(algo.duration)
}

// the run is over: it can be stopped, not paused
func (algo *Algo) answerPending(failed bool) {
	select {
	case status := <-algo.statusChannel:
		if failed || status.Value != Finished {
			return
		}
		algo.setStatus(status, false)
	default:
	}
}

func (algo *Algo) freeClient() {
	select {
	case <-algo.ackChannel:
		return
	default:
	}
	close(algo.ackChannel)
}
"""))

R('r3-run', FN(CTR, '(algo *Algo) run', """func (algo *Algo) run(timeout Timeout) {
	algo.ackChannel = make(chan bool)

	var err error
	var start = time.Now()
	defer func() {
		if reason := recover(); reason != nil {
			err = fmt.Errorf("%v", reason)
		}
		algo.terminate(err, start, timeout)
	}()

	var finishing = algo.finishing()
	var period = algo.period()
	var last = start

	algo.receiveStatus()

	for {
		if algo.Status().Value != Running || IsFinished(finishing, algo) {
			return
		}
		select { // check for algo status update
		case status := <-algo.statusChannel:
			algo.obey(status)
			continue
		default:
		}
		if err = algo.iterate(start); err != nil {
			return
		}
		if period > 0 {
			time.Sleep(period - time.Since(last))
			last = time.Now()
		}
	}
}

func (algo *Algo) finishing() Finishing {
	var conf = algo.conf.Ctrl()
	var budget = NewIterFinishing(conf.Iter, conf.IterPerData)
	if conf.Finishing == nil {
		return budget
	}
	return NewOrFinishing(budget, conf.Finishing)
}

func (algo *Algo) period() (period time.Duration) {
	if freq := algo.conf.Ctrl().IterFreq; freq > 0 {
		period = time.Duration(float64(time.Second) / freq)
	}
	return
}

func (algo *Algo) obey(status OCStatus) {
	algo.setStatus(status, true)
	if status.Value != Idle {
		return
	}
	algo.ackChannel <- true
	algo.receiveStatus()
}

func (algo *Algo) iterate(start time.Time) error {
	var model = NewSimpleOCModel(algo.conf, algo.space, algo.Status(), algo.RuntimeFigures(), algo.Centroids())
	var centroids, figures, err = algo.impl.Iterate(model)
	if err != nil || centroids == nil {
		return err
	}
	var elapsed = time.Since(start)
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.iterations++
	algo.saveIterContext(centroids, figures, elapsed)
	return nil
}
"""))

R('r3-figs', FN(CTR, '(algo *Algo) updateRuntimeFigures', """func (algo *Algo) updateRuntimeFigures() {
	algo.writeCounters(algo.runtimeFigures)
}

func (algo *Algo) writeCounters(figures RuntimeFigures) {
	figures[LastDataTime] = float64(algo.lastDataTime)
	figures[PushedData] = float64(algo.pushedData)
	figures[Iterations] = float64(algo.iterations)
}
"""), FN(CTR, '(algo *Algo) saveIterContext', """func (algo *Algo) saveIterContext(centroids Clust, runtimeFigures RuntimeFigures, duration time.Duration) {
	var figures = runtimeFigures
	if figures == nil {
		figures = make(RuntimeFigures)
	}
	algo.writeCounters(figures)
	figures[Duration] = float64(duration + algo.duration)
	algo.centroids, algo.runtimeFigures = centroids, figures
}
"""), FN(MOD, '(algo *Algo) RuntimeFigures', """func (algo *Algo) RuntimeFigures() RuntimeFigures {
	algo.modelMutex.RLock()
	defer algo.modelMutex.RUnlock()
	return algo.runtimeFigures.clone()
}

func (figures RuntimeFigures) clone() RuntimeFigures {
	var copied = RuntimeFigures{}
	for name := range figures {
		copied[name] = figures[name]
	}
	return copied
}
"""))

R('r3-getters', FN(MOD, '(algo *Algo) Centroids', """func (algo *Algo) Centroids() Clust {
	algo.modelMutex.RLock()
	var centroids = algo.centroids
	algo.modelMutex.RUnlock()
	return centroids
}
"""), FN(MOD, '(algo *Algo) Status', """func (algo *Algo) Status() (status OCStatus) {
	algo.statusMutex.RLock()
	status = algo.status
	algo.statusMutex.RUnlock()
	return
}
"""), FN(MOD, '(algo *Algo) Conf', """func (algo *Algo) Conf() (conf Conf) {
	algo.readModel(func() { conf = algo.conf })
	return
}

func (algo *Algo) readModel(read func()) {
	algo.modelMutex.RLock()
	defer algo.modelMutex.RUnlock()
	read()
}
"""))

R('r3-wait', FN(CTR, '(algo *Algo) Wait', """func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) error {
	var value = algo.Status().Value
	if value == Ready || value == Finished {
		return nil
	}
	if value == Idle {
		return ErrIdle
	}
	if value != Running {
		return ErrNotRunning
	}
	if algo.CanNeverFinish(finishing, timeout) {
		return ErrNeverFinish
	}
	return WaitTimeout(finishing, timeout, algo)
}
"""), FN(CTR, '(algo *Algo) CanNeverFinish', """func (algo *Algo) CanNeverFinish(finishing Finishing, timeout time.Duration) bool {
	if finishing != nil || timeout > 0 {
		return false
	}
	var conf = algo.Conf().Ctrl()
	var bounded = conf.Finishing != nil || conf.Timeout > 0 || conf.Iter != 0 || conf.IterPerData != 0
	return !bounded
}
"""))

R('r3-timeout', FN(TMO, '(t *timeout) wait', """func (t *timeout) wait() error {
	var deadline = time.Now().Add(t.duration)
	for !t.isFinished() {
		if t.isTimeout(deadline) {
			return ErrTimeout
		}
		time.Sleep(100 * time.Millisecond)
	}
	return t.ocm.Status().Error
}
"""), FN(TMO, '(t *timeout) interrupt', """func (t *timeout) interrupt() {
	time.Sleep(t.duration)
	if !t.Enabled() {
		return
	}
	_ = t.interruption(ErrTimeout)
}
"""), FN(TMO, '(t *timeout) isTimeout', """func (t *timeout) isTimeout(lastTime time.Time) bool {
	if t.duration <= 0 {
		return false
	}
	return lastTime.Before(time.Now())
}
"""))

R('r3-buffer', FN(BUF, 'NewDataBuffer', """func NewDataBuffer(data []Elemt, size int) Buffer {
	var kept, capacity = data, len(data)
	var strategy bufferSizeStrategy = &infiniteSizeStrategy{}
	if size > 0 {
		if len(data) > size {
			kept = data[len(data)-size:]
		}
		capacity = size
		strategy = &fixedSizeStrategy{size: size, position: len(kept)}
	}
	return &DataBuffer{
		pipe:     make(chan Elemt, pipeSize),
		data:     append(make([]Elemt, 0, capacity), kept...),
		strategy: strategy,
	}
}
"""), FN(BUF, '(b *DataBuffer) Apply', """func (b *DataBuffer) Apply() error {
	for {
		select {
		case elmt, ok := <-b.pipe:
			if !ok {
				return nil
			}
			b.store(elmt)
		default:
			return nil
		}
	}
}

func (b *DataBuffer) store(elmt Elemt) {
	b.data = b.strategy.push(b.data, elmt)
}
"""), FN(BUF, '(b *DataBuffer) applyNext', ""), FN(BUF, '(b *DataBuffer) Push', """func (b *DataBuffer) Push(elmt Elemt, running bool) error {
	if !running {
		b.store(elmt)
		return nil
	}
	b.pipe <- elmt
	return nil
}
"""))
R('r3-window', FN(BUF, '(s *fixedSizeStrategy) push', """func (s *fixedSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
	var at = s.position
	if at >= s.size {
		at = 0
	}
	s.position = at + 1
	if at >= len(data) {
		return append(data, elemt)
	}
	data[at] = elemt
	return data
}
"""))
R('r3-reduce', FN(CL, '(c *Clust) ReduceDBA(', """func (c *Clust) ReduceDBA(elemts []Elemt, space Space) (Clust, []int) {
	var acc = newAverages(len(*c))
	for i := range elemts {
		var label, _ = c.nearest(elemts[i], space)
		acc.add(label, elemts[i], space)
	}
	return acc.means, acc.cards
}

type averages struct {
	means []Elemt
	cards []int
}

func newAverages(k int) *averages {
	return &averages{make([]Elemt, k), make([]int, k)}
}

func (a *averages) add(label int, elemt Elemt, space Space) {
	var n = a.cards[label]
	a.cards[label] = n + 1
	if n > 0 {
		a.means[label] = space.Combine(a.means[label], n, elemt, 1)
		return
	}
	a.means[label] = space.Copy(elemt)
}
"""), FN(CL, '(c *Clust) ReduceDBAForLabels(', """func (c *Clust) ReduceDBAForLabels(elemts []Elemt, labels []int, space Space) ([]Elemt, []int) {
	var acc = newAverages(len(*c))
	for i, elemt := range elemts {
		acc.add(labels[i], elemt, space)
	}
	return acc.means, acc.cards
}
"""))
R('r3-loss', FN(CL, '(c *Clust) ReduceLoss(', """func (c *Clust) ReduceLoss(elemts []Elemt, space Space, norm float64) ([]float64, []int) {
	return c.sumLosses(elemts, norm, func(i int) (int, float64) { return c.nearest(elemts[i], space) })
}

func (c *Clust) sumLosses(elemts []Elemt, norm float64, member func(int) (int, float64)) (losses []float64, cards []int) {
	losses, cards = make([]float64, len(*c)), make([]int, len(*c))
	for i := range elemts {
		label, dist := member(i)
		losses[label] += math.Pow(dist, norm)
		cards[label]++
	}
	return
}
"""), FN(CL, '(c *Clust) ReduceLossForLabels(', """func (c *Clust) ReduceLossForLabels(elemts []Elemt, labels []int, space Space, norm float64) ([]float64, []int) {
	return c.sumLosses(elemts, norm, func(i int) (int, float64) {
		return labels[i], space.Dist(elemts[i], (*c)[labels[i]])
	})
}
"""), FN(CL, '(c *Clust) TotalLoss(', """func (c *Clust) TotalLoss(elemts []Elemt, space Space, norm float64) (total float64) {
	losses, _ := c.ReduceLoss(elemts, space, norm)
	for _, loss := range losses {
		total += loss
	}
	return
}
"""))
R('r3-nearest', FN(CL, '(c *Clust) nearest', """func (c *Clust) nearest(elemt Elemt, space Space) (int, float64) {
	var centroids = *c
	if len(centroids) == 0 {
		return -1, -1
	}
	var label, min = 0, space.Dist(elemt, centroids[0])
	for i, centroid := range centroids[1:] {
		var d = space.Dist(elemt, centroid)
		if d >= min {
			continue
		}
		label, min = i+1, d
	}
	return label, min
}
"""), FN(CL, '(c *Clust) MapLabel', """func (c *Clust) MapLabel(elemts []Elemt, space Space) ([]int, []float64) {
	var labels = make([]int, 0, len(elemts))
	var dists = make([]float64, 0, len(elemts))
	for _, elemt := range elemts {
		var label, dist = c.nearest(elemt, space)
		labels = append(labels, label)
		dists = append(dists, dist)
	}
	return labels, dists
}
"""))
R('r3-dba', FN(CL, 'DBA(', """func DBA(elemts []Elemt, space Space) (Elemt, error) {
	var weights = make([]int, len(elemts))
	for i := range weights {
		weights[i] = 1
	}
	return WeightedDBA(elemts, weights, space)
}
"""), FN(CL, 'WeightedDBA(', """func WeightedDBA(elemts []Elemt, weights []int, space Space) (Elemt, error) {
	if len(elemts) == 0 {
		return nil, errors.New("DBA needs at least one elements")
	}
	var dba, total = space.Copy(elemts[0]), weights[0]
	for i, elemt := range elemts[1:] {
		var weight = weights[i+1]
		dba = space.Combine(dba, total, elemt, weight)
		total = total + weight
	}
	return dba, nil
}
"""))
R('r3-pardba', FN(DBA, 'parReduceDBA', """func parReduceDBA(centroids Clust, data []Elemt, space Space, degree int) (Clust, []int) {
	var aggr = parAverages(len(data), degree, space, func(start, end int) (Clust, []int) {
		return centroids.ReduceDBA(data[start:end], space)
	})
	return buildResult(centroids, aggr)
}

func parAverages(size, degree int, space Space, reduce func(start, end int) (Clust, []int)) dbaPartition {
	var parts = make([]dbaPartition, degree)
	Par(func(start, end, rank int) {
		var dbas, cards = reduce(start, end)
		parts[rank] = dbaPartition{dbas: dbas, cards: cards}
	}, size, degree)
	return dbaAggregate(parts, space)
}
"""), FN(DBA, 'parDBAForLabels', """func parDBAForLabels(centroids Clust, data []Elemt, labels []int, space Space, degree int) ([]Elemt, []int) {
	var aggr = parAverages(len(data), degree, space, func(start, end int) (Clust, []int) {
		return centroids.ReduceDBAForLabels(data[start:end], labels[start:end], space)
	})
	return aggr.dbas, aggr.cards
}
"""), FN(DBA, 'dbaReduceForLabels', ""), FN(DBA, 'dbaReduce(', ""), FN(DBA, 'dbaAggregate', """func dbaAggregate(parts []dbaPartition, space Space) dbaPartition {
	if len(parts) == 0 {
		return dbaPartition{}
	}
	var aggregate = parts[0]
	for rank := 1; rank < len(parts); rank++ {
		aggregate.merge(parts[rank], space)
	}
	return aggregate
}
"""), FN(DBA, 'dbaCombine', """func (aggregate *dbaPartition) merge(other dbaPartition, space Space) {
	for i, n := range aggregate.cards {
		var m = other.cards[i]
		if m == 0 {
			continue
		}
		if n == 0 {
			aggregate.dbas[i] = other.dbas[i]
		} else {
			aggregate.dbas[i] = space.Combine(aggregate.dbas[i], n, other.dbas[i], m)
		}
		aggregate.cards[i] = n + m
	}
}
"""), FN(DBA, 'buildResult', """func buildResult(data Clust, aggr dbaPartition) (Clust, []int) {
	var result = make(Clust, len(data))
	copy(result, data)
	for i, card := range aggr.cards {
		if card > 0 {
			result[i] = aggr.dbas[i]
		}
	}
	return result, aggr.cards
}
"""))
R('r3-parloss', FN(LOSS, 'lossAggregate', """func lossAggregate(parts []partitionLosses) (aggregate partitionLosses) {
	for rank, part := range parts {
		if rank == 0 {
			aggregate.losses = append([]float64{}, part.losses...)
			aggregate.cards = append([]int{}, part.cards...)
			continue
		}
		for label, loss := range part.losses {
			aggregate.losses[label] += loss
		}
		for label, card := range part.cards {
			aggregate.cards[label] += card
		}
	}
	return
}
"""))
R('r3-par', FN(UT, 'Par(', """func Par(process func(int, int, int), size int, degree int) {
	var group sync.WaitGroup
	var failures = make([]interface{}, degree)
	var small, larger = size / degree, size % degree
	for rank, start := 0, 0; rank < degree; rank++ {
		var width = small
		if rank >= degree-larger {
			width = small + 1
		}
		group.Add(1)
		go func(start, end, rank int) {
			defer group.Done()
			failures[rank] = protect(process, start, end, rank)
		}(start, start+width, rank)
		start += width
	}
	group.Wait()
	// a panic is raised in the calling go routine, which can recover it
	for rank := range failures {
		if failures[rank] != nil {
			panic(failures[rank])
		}
	}
}

func protect(process func(int, int, int), start, end, rank int) (failure interface{}) {
	defer func() { failure = recover() }()
	process(start, end, rank)
	return nil
}
"""))
R('r3-fin', FN(FIN, '(and AndFinishing) IsFinished', """func (and AndFinishing) IsFinished(ocm OCModel) bool {
	for _, finishing := range and.Finishings {
		if !IsFinished(finishing, ocm) {
			return false
		}
	}
	return len(and.Finishings) > 0
}
"""), FN(FIN, '(or OrFinishing) IsFinished', """func (or OrFinishing) IsFinished(ocm OCModel) bool {
	var found = false
	for i := 0; i < len(or.Finishings) && !found; i++ {
		found = IsFinished(or.Finishings[i], ocm)
	}
	return found
}
"""), FN(FIN, '(i IterFinishing) IsFinished', """func (i IterFinishing) IsFinished(ocm OCModel) bool {
	if i.Iter <= 0 && i.IterPerData <= 0 {
		return false
	}
	var figures = ocm.RuntimeFigures()
	var budget = i.Iter + i.IterPerData*int(figures[PushedData])
	return budget <= int(figures[Iterations])
}
"""), FN(FIN, '(sf StatusFinishing) IsFinished', """func (sf StatusFinishing) IsFinished(ocm OCModel) bool {
	var status = ocm.Status()
	return sf.Error && status.Error != nil || sf.includes(status.Value)
}

func (sf StatusFinishing) includes(value ClustStatus) bool {
	for i := range sf.Status {
		if sf.Status[i] == value {
			return true
		}
	}
	return false
}
"""))
R('r3-parloss2', FN(LOSS, 'lossAggregate', """func lossAggregate(parts []partitionLosses) (aggregate partitionLosses) {
	for _, part := range parts {
		if aggregate.cards != nil {
			aggregate.add(part)
		} else {
			aggregate.losses = append([]float64{}, part.losses...)
			aggregate.cards = append(make([]int, 0, len(part.cards)), part.cards...)
		}
	}
	return
}

func (p partitionLosses) add(other partitionLosses) {
	for i := 0; i < len(p.losses); i++ {
		p.losses[i] += other.losses[i]
		p.cards[i] += other.cards[i]
	}
}
"""))
LD='mcmc/latedistrib.go'; MVT='mcmc/multivt.go'; KC='kmeans/conf.go'
R('r3-inits', FN(KI, 'GivenInitializer', """func GivenInitializer(k int, elemts []core.Elemt, space core.Space, _ *rand.Rand) (core.Clust, error) {
	if err := check(k, elemts); err != nil {
		return nil, err
	}
	return copyAll(elemts[:k], space), nil
}

func copyAll(elemts []core.Elemt, space core.Space) core.Clust {
	var copies = make(core.Clust, 0, len(elemts))
	for _, elemt := range elemts {
		copies = append(copies, space.Copy(elemt))
	}
	return copies
}
"""), FN(KI, 'RandInitializer', """func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (core.Clust, error) {
	if err := check(k, elemts); err != nil {
		return nil, err
	}
	var centroids = make(core.Clust, 0, k)
	var taken = make([]bool, len(elemts))
	for len(centroids) < k {
		var choice = src.Intn(len(elemts))
		if taken[choice] {
			continue
		}
		taken[choice] = true
		centroids = append(centroids, space.Copy(elemts[choice]))
	}
	return centroids, nil
}
"""), FN(KI, 'check(', """func check(k int, elemts []core.Elemt) error {
	switch {
	case k < 1:
		return errors.New("K is lower than 1")
	case k > len(elemts):
		return errors.New("less elements than k")
	default:
		return nil
	}
}
"""))
R('r3-pp', FN(KI, 'PPInitializer', """func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (core.Clust, error) {
	if err := check(k, elemts); err != nil {
		return nil, err
	}
	var centroids = core.Clust{space.Copy(elemts[src.Intn(len(elemts))])}
	for len(centroids) < k {
		var next, err = PPIter(centroids, elemts, space, src)
		if err != nil {
			return nil, err
		}
		centroids = append(centroids, next)
	}
	return centroids, nil
}
"""), FN(KI, 'PPIter', """func PPIter(clust core.Clust, elemts []core.Elemt, space core.Space, src *rand.Rand) (elemt core.Elemt, err error) {
	var degree = runtime.NumCPU()
	_, dists := clust.ParMapLabel(elemts, space, degree)
	draw, err := WeightedChoice(dists, src)
	elemt = space.Copy(elemts[draw])
	return elemt, err
}
"""))
R('r3-choice', FN(KI, 'WeightedChoice', """func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
	var total = totalOf(weights)
	if total == 0 {
		return 0, ErrNullSet
	}
	var cursor = rand.Float64() * total
	var last = 0
	for i := range weights {
		if weights[i] <= 0 {
			continue
		}
		if cursor < weights[i] {
			return i, nil
		}
		cursor -= weights[i]
		last = i
	}
	return last, nil
}

func totalOf(weights []float64) (total float64) {
	for i := 0; i < len(weights); i++ {
		total += weights[i]
	}
	return
}
"""))
R('r3-mcinit', FN(MI, '(impl *Impl) Init', """func (impl *Impl) Init(model core.OCModel) (core.Clust, error) {
	var conf, space = model.Conf().(*Conf), model.Space()
	_ = impl.buffer.Apply()
	var data = impl.buffer.Data()
	var centroids, err = impl.initializer(conf.InitK, data, space, conf.RGen)
	if err != nil {
		return centroids, err
	}
	var now = impl.getCurrentTime(data)
	impl.dim = space.Dim(centroids)
	impl.current = impl.evaluate(*conf, space, conf.InitK, centroids, data, now)
	impl.time = now
	return centroids, nil
}

func (impl *Impl) evaluate(conf Conf, space core.Space, k int, centers core.Clust, data []core.Elemt, now int) (p proposal) {
	p.k, p.centers = k, centers
	p.loss = impl.strategy.Loss(conf, space, centers, data)
	p.pdf = impl.proba(conf, space, centers, centers, now)
	return
}
"""), FN(MI, '(impl *Impl) propose', """func (impl *Impl) propose(conf Conf, space core.Space, current proposal, centroids core.Clust, data []core.Elemt, time int) proposal {
	var k, base = impl.getKCenters(conf, space, current, centroids, data)
	var centers = impl.strategy.Iterate(conf, space, impl.alter(conf, space, base, time), data, 1)
	return impl.evaluate(conf, space, k, centers, data, time)
}
"""))
R('r3-mciter', FN(MI, '(impl *Impl) Iterate', """func (impl *Impl) Iterate(model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	var conf = *model.Conf().(*Conf)
	var data = impl.buffer.Data()
	var now = impl.getCurrentTime(data)
	var clust = impl.doIter(conf, model.Space(), model.Centroids(), data, now)
	impl.time = now
	var figures = impl.runtimeFigures()
	var err = impl.buffer.Apply()
	return clust, figures, err
}
"""), FN(MI, '(impl *Impl) doIter', """func (impl *Impl) doIter(conf Conf, space core.Space, centroids core.Clust, data []core.Elemt, time int) core.Clust {
	var prop = impl.propose(conf, space, impl.current, centroids, data, time)
	if !impl.accept(conf, impl.current, prop, time) {
		return centroids
	}
	impl.acc++
	impl.current = prop
	impl.store.SetCenters(prop.centers)
	return prop.centers
}
"""))
R('r3-mcaccept', FN(MI, '(impl *Impl) accept', """func (impl *Impl) accept(conf Conf, current proposal, prop proposal, time int) bool {
	impl.lambda = impl.temperature(conf, time)
	impl.rGibbs = impl.lambda * (current.loss - prop.loss)
	var exponent = impl.rGibbs
	exponent += math.Log(conf.B*2) * float64(impl.dim) * float64(current.k-prop.k)
	exponent += current.pdf - prop.pdf
	impl.rho = math.Exp(exponent)
	var draw = impl.uniform.Rand()
	return draw < impl.rho
}

func (impl *Impl) temperature(conf Conf, time int) float64 {
	return math.Sqrt((float64(impl.dim)+3)/float64(time)) * conf.Amp
}
"""))
R('r3-mcnextk', FN(MI, '(impl *Impl) nextK', """func (impl *Impl) nextK(conf Conf, k int, data []core.Elemt) int {
	var choice, _ = kmeans.WeightedChoice(conf.ProbaK, conf.RGen)
	var next = k + choice - 1
	if next < 1 {
		return 1
	}
	if next > conf.MaxK {
		return conf.MaxK
	}
	if next > len(data) {
		return len(data)
	}
	return next
}
"""), FN(MI, '(impl *Impl) getKCenters', """func (impl *Impl) getKCenters(conf Conf, space core.Space, current proposal, centroids core.Clust, data []core.Elemt) (int, core.Clust) {
	for _, k := range []int{impl.nextK(conf, current.k, data), current.k} {
		if centers, err := impl.store.GetCenters(data, space, k, centroids); err == nil {
			return k, centers
		}
	}
	return current.k, centroids
}
"""))
R('r3-mcgetk', FN(MI, '(impl *Impl) getKCenters', """func (impl *Impl) getKCenters(conf Conf, space core.Space, current proposal, centroids core.Clust, data []core.Elemt) (k int, centers core.Clust) {
	k = impl.nextK(conf, current.k, data)
	if centers, err := impl.store.GetCenters(data, space, k, centroids); err == nil {
		return k, centers
	}
	// no center can be added
	k = current.k
	centers, _ = impl.store.GetCenters(data, space, k, centroids)
	return
}
"""))
R('r3-mcstore', FN(MS, '(store *CenterStore) GetCenters', """func (store *CenterStore) GetCenters(data []core.Elemt, space core.Space, k int, clust core.Clust) (core.Clust, error) {
	if kept, ok := store.centers[k]; ok {
		return kept, nil
	}
	var prevK = len(clust)
	if k > prevK {
		return store.addCenter(data, space, prevK, clust)
	}
	if k < prevK {
		return store.delCenter(space, prevK, clust), nil
	}
	return clust, nil
}
"""), FN(MS, '(store *CenterStore) genCenters', ""), FN(MS, '(store *CenterStore) addCenter', """func (store *CenterStore) addCenter(data []core.Elemt, space core.Space, prevK int, prev core.Clust) (core.Clust, error) {
	var added, err = kmeans.PPIter(prev, data, space, store.rgen)
	var clust = make(core.Clust, 0, prevK+1)
	for _, center := range prev {
		clust = append(clust, space.Copy(center))
	}
	return append(clust, added), err
}
"""), FN(MS, '(store *CenterStore) delCenter', """func (store *CenterStore) delCenter(space core.Space, prevK int, prev core.Clust) core.Clust {
	var del = store.rgen.Intn(prevK)
	var clust = make(core.Clust, 0, prevK-1)
	for i, center := range prev {
		if i != del {
			clust = append(clust, space.Copy(center))
		}
	}
	return clust
}
"""))
R('r3-mcalter', FN(MI, '(impl *Impl) alter', """func (impl *Impl) alter(conf Conf, space core.Space, clust core.Clust, time int) core.Clust {
	var sample = func(c core.Elemt) core.Elemt { return impl.distrib.Sample(c, time) }
	return mapClust(clust, sample)
}

func mapClust(clust core.Clust, f func(core.Elemt) core.Elemt) core.Clust {
	var result = make(core.Clust, len(clust))
	for i := 0; i < len(clust); i++ {
		result[i] = f(clust[i])
	}
	return result
}
"""), FN(MI, '(impl *Impl) proba', """func (impl *Impl) proba(conf Conf, space core.Space, x, mu core.Clust, time int) float64 {
	var total float64
	for i := 0; i < len(x); i++ {
		total = total + impl.distrib.Pdf(mu[i], x[i], time)
	}
	return total
}
"""))
R('r3-late', FN(LD, '(d *LateDistrib) tryInitialize', """func (d *LateDistrib) tryInitialize(elemt core.Elemt) Distrib {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.initialized {
		return d.distrib
	}
	d.distrib, d.initialized = d.initializer(elemt), true
	return d.distrib
}
"""), FN(LD, '(d *LateDistrib) Sample', """func (d *LateDistrib) Sample(mu core.Elemt, time int) core.Elemt {
	return d.tryInitialize(mu).Sample(mu, time)
}
"""), FN(LD, '(d *LateDistrib) Pdf', """func (d *LateDistrib) Pdf(x, mu core.Elemt, time int) float64 {
	var distrib = d.tryInitialize(mu)
	return distrib.Pdf(x, mu, time)
}
"""))
R('r3-multivt', FN(MVT, 'NewMultivT', """func NewMultivT(conf MultivTConf) (m MultivT) {
	m.setConf(conf)
	var ones = make([]float64, m.Dim)
	for i := range ones {
		ones[i] = 1
	}
	m.normal, _ = distmv.NewNormal(make([]float64, m.Dim), mat.NewDiagDense(m.Dim, ones), m.RGen)
	m.chi2 = &distuv.ChiSquared{Src: m.RGen, K: m.Nu}
	m.power = (m.Nu + float64(m.Dim)) / 2.
	m.gammaFactor = math.Log(math.Gamma(m.power) / math.Gamma(m.Nu/2.))
	return m
}
"""), FN(MVT, '(m MultivT) Pdf', """func (m MultivT) Pdf(mu, x core.Elemt, time int) float64 {
	var scale = m.Nu / math.Sqrt(float64(20*time))
	var shift = squaredDistance(mu.([]float64), x.([]float64))
	var half = float64(m.Dim) / 2.
	return m.gammaFactor - half*math.Log(scale*math.Pi) - m.power*math.Log(1.+shift/scale)
}

func squaredDistance(a, b []float64) (sum float64) {
	for i, v := range a {
		sum += (v - b[i]) * (v - b[i])
	}
	return
}
"""))
R('r3-stream', FN(SI, '(impl *Impl) Process', """func (impl *Impl) Process(elemt core.Elemt, space core.Space) {
	_, label, distance := impl.clust.Assign(elemt, space)
	relative := impl.GetRelativeDistance(distance)
	defer func() { impl.count++ }()

	if impl.isOutlier(relative) {
		impl.AddOutlier(elemt)
		return
	}
	if impl.norm.Rand() < relative {
		impl.AddCenter(elemt, distance)
		return
	}
	impl.UpdateCenter(label, elemt, distance, space)
}

func (impl *Impl) isOutlier(relative float64) bool {
	return relative > impl.conf.OutRatio && impl.conf.OutAfter <= impl.count
}
"""), FN(SI, '(impl *Impl) AddCenter', """func (impl *Impl) AddCenter(cluster core.Elemt, distance float64) {
	impl.append(cluster)
	impl.UpdateMaxDistance(distance)
}

func (impl *Impl) append(center core.Elemt) {
	impl.cards = append(impl.cards, 1)
	impl.clust = append(impl.clust, center)
}
"""), FN(SI, '(impl *Impl) AddOutlier', """func (impl *Impl) AddOutlier(outlier core.Elemt) {
	impl.append(outlier)
}
"""), FN(SI, '(impl *Impl) UpdateCenter', """func (impl *Impl) UpdateCenter(label int, elemt core.Elemt, distance float64, space core.Space) {
	var card = impl.cards[label]
	impl.cards[label] = card + 1
	impl.clust[label] = space.Combine(impl.clust[label], card, elemt, 1)
	impl.UpdateMaxDistance(distance)
}
"""))
R('r3-stream2', FN(SI, '(impl *Impl) Iterate', """func (impl *Impl) Iterate(model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	var clust core.Clust
	if elemt, ok := impl.next(); ok {
		impl.Process(elemt, model.Space())
		// centers are modified in place by next iterations
		clust = append(core.Clust(nil), impl.clust...)
	}
	return clust, impl.runtimeFigures(), nil
}

func (impl *Impl) next() (elemt core.Elemt, ok bool) {
	select {
	case elemt = <-impl.c:
		ok = true
	default:
	}
	return
}
"""), FN(SI, '(impl *Impl) Init', """func (impl *Impl) Init(model core.OCModel) (core.Clust, error) {
	var first, ok = impl.next()
	if !ok {
		return nil, errors.New("at least one element is needed")
	}
	impl.AddCenter(first, 0.)
	return core.Clust{first}, nil
}
"""), FN(SI, '(impl *Impl) Push', """func (impl *Impl) Push(elemt core.Elemt, model core.OCModel) error {
	select {
	case impl.c <- elemt:
		return nil
	default:
		return errors.New("buffer is full")
	}
}
"""), FN(SI, '(impl *Impl) UpdateMaxDistance', """func (impl *Impl) UpdateMaxDistance(distance float64) {
	if distance <= impl.maxDistance {
		return
	}
	impl.maxDistance = distance
}
"""))
R('r3-euclid', FN(VEC, '(space Space) PointDist', """func (space Space) PointDist(point1 []float64, point2 []float64) float64 {
	return math.Sqrt(squares(point1, point2))
}

func squares(point1, point2 []float64) (sum float64) {
	for i, x := range point1 {
		d := x - point2[i]
		sum = sum + d*d
	}
	return sum
}
"""), FN(VEC, '(space Space) PointCombine', """func (space Space) PointCombine(point1 []float64, weight1 int, point2 []float64, weight2 int) []float64 {
	var w1, w2 = float64(weight1), float64(weight2)
	return zip(point1, point2, func(x, y float64) float64 {
		return (x*w1 + y*w2) / (w1 + w2)
	})
}

func zip(point1, point2 []float64, f func(x, y float64) float64) []float64 {
	var result = make([]float64, 0, len(point1))
	for i := range point1 {
		result = append(result, f(point1[i], point2[i]))
	}
	return result
}
"""), FN(VEC, '(space Space) PointCopy', """func (space Space) PointCopy(point []float64) []float64 {
	return append(make([]float64, 0, len(point)), point...)
}
"""), FN(VEC, '(space Space) Dim', """func (space Space) Dim(data []core.Elemt) int {
	if len(data) == 0 {
		return 0
	}
	return len(data[0].([]float64))
}
"""))
R('r3-cos', FN(COS, 'Cosinus(', """func Cosinus(v1, v2 []float64) float64 {
	var product, square1, square2 float64
	for i := 0; i < len(v1); i++ {
		product += v1[i] * v2[i]
		square1 += v1[i] * v1[i]
	}
	for i := 0; i < len(v2); i++ {
		square2 += v2[i] * v2[i]
	}
	return product / (math.Sqrt(square1) * math.Sqrt(square2))
}
"""))
R('r3-dtwcost', FN(CO, '(cumCost *CumCostMatrix) computeCumCost', """func (cumCost *CumCostMatrix) computeCumCost() {
	cumCost.values = make([]float64, cumCost.stride0*cumCost.stride1)
	for i1 := range cumCost.s1 {
		var from, to = cumCost.columns(i1)
		for i2 := from; i2 < to; i2++ {
			cumCost.values[cumCost.ravel(i1, i2)] = cumCost.cost(i1, i2)
		}
	}
}

func (cumCost *CumCostMatrix) columns(i1 int) (from, to int) {
	from, to = i1-cumCost.window, i1+cumCost.window+1
	if from < 0 {
		from = 0
	}
	if to > len(cumCost.s2) {
		to = len(cumCost.s2)
	}
	return
}

func (cumCost *CumCostMatrix) cost(i1, i2 int) float64 {
	var dist = cumCost.space.PointDist(cumCost.s1[i1], cumCost.s2[i2])
	if i1 == 0 && i2 == 0 {
		return dist
	}
	if i1 == 0 {
		return dist + cumCost.Get(0, i2-1)
	}
	if i2 == 0 {
		return dist + cumCost.Get(i1-1, 0)
	}
	var l, u, ul = cumCost.neighborCosts(i1, i2)
	return dist + min(ul, u, l)
}
"""))
R('r3-dtwpath', FN(CO, '(cumCost *CumCostMatrix) computePath', """func (cumCost *CumCostMatrix) computePath() {
	var at = Ends{len(cumCost.s1) - 1, len(cumCost.s2) - 1}
	cumCost.path = []Ends{}
	for at.End0 > 0 || at.End1 > 0 {
		cumCost.path = append(cumCost.path, at)
		at = cumCost.previous(at)
	}
	cumCost.path = append(cumCost.path, at)
}

func (cumCost *CumCostMatrix) previous(at Ends) Ends {
	if at.End0 == 0 {
		return Ends{0, at.End1 - 1}
	}
	if at.End1 == 0 {
		return Ends{at.End0 - 1, 0}
	}
	var l, u, ul = cumCost.neighborCosts(at.End0, at.End1)
	var i1, i2 = decrPath(ul, u, l, at.End0, at.End1)
	return Ends{i1, i2}
}
"""))
R('r3-dtwget', FN(CO, '(cumCost *CumCostMatrix) Get', """func (cumCost *CumCostMatrix) Get(i1, i2 int) float64 {
	if cumCost.inWindow(i1, i2) {
		return cumCost.values[cumCost.ravel(i1, i2)]
	}
	return math.Inf(1)
}
"""), FN(CO, '(cumCost *CumCostMatrix) ravel', """func (cumCost *CumCostMatrix) ravel(i, j int) int {
	var shift = i - cumCost.window
	if shift < 0 {
		shift = 0
	}
	return cumCost.index(i, j-shift)
}
"""), FN(CO, '(cumCost *CumCostMatrix) inWindow', """func (cumCost *CumCostMatrix) inWindow(i int, j int) bool {
	var gap = i - j
	if gap < 0 {
		gap = -gap
	}
	return gap <= cumCost.window
}
"""), FN(CO, '(cumCost *CumCostMatrix) setStride', """func (cumCost *CumCostMatrix) setStride(shortest int, longest int) {
	if cumCost.window == 0 {
		if shortest > longest {
			cumCost.window = shortest
		} else {
			cumCost.window = longest
		}
	}
	cumCost.stride0, cumCost.stride1 = shortest, 2*cumCost.window+1
	if cumCost.stride1 > longest {
		cumCost.stride1 = longest
	}
}
"""), FN(CO, 'min(', """func min(v1 float64, v2 float64, v3 float64) float64 {
	var least = v1
	if v2 < least {
		least = v2
	}
	if v3 < least {
		least = v3
	}
	return least
}
"""))
SE='dtw/series.go'
R('r3-dtwavg', FN(DT, '(dtw DTW) DBA', """func (dtw DTW) DBA(w1, w2 int) [][]float64 {
	var n = len(dtw.path)
	var points, positions = make([][]float64, 0, n), make([]int, 0, n)
	for i := n - 1; i >= 0; i-- {
		var i1, i2 = dtw.path[i].End0, dtw.path[i].End1
		points = append(points, dtw.space.PointCombine(dtw.s1[i1], w1, dtw.s2[i2], w2))
		positions = append(positions, w1*i1+w2*i2)
	}
	return Interpolate(points, positions, w1+w2, dtw.space)
}
"""), FN(DT, '(dtw *DTW) interpolate', ""), FN(IN, 'ShrinkLongest', """func ShrinkLongest(s1, s2 [][]float64, space PointSpace, window int) ([][]float64, [][]float64) {
	if window <= 0 {
		return s1, s2
	}
	if max := len(s2) + window; len(s1) > max {
		return Resize(s1, max, space), s2
	}
	if max := len(s1) + window; len(s2) > max {
		return s1, Resize(s2, max, space)
	}
	return s1, s2
}
"""))
R('r3-interp', FN(IN, 'Interpolate', """func Interpolate(s [][]float64, idx []int, shrinkFactor int, space PointSpace) [][]float64 {
	var size = 1 + idx[len(s)-1]/shrinkFactor
	var result = make([][]float64, size)
	result[0] = s[0]
	var j = 1
	for i := 1; i < size; i++ {
		var x = shrinkFactor * i
		for idx[j] < x {
			j++
		}
		result[i] = between(s, idx, j, x, space)
	}
	return result
}

func between(s [][]float64, idx []int, j, x int, space PointSpace) []float64 {
	var before, after = x - idx[j-1], idx[j] - x
	if after == 0 {
		return s[j]
	}
	return space.PointCombine(s[j-1], after, s[j], before)
}
"""))
R('r3-series', FN(SE, '(space Space) Dist', """func (space Space) Dist(elemt1, elemt2 core.Elemt) float64 {
	return space.align(elemt1, elemt2).Dist()
}

func (space Space) align(elemt1, elemt2 core.Elemt) DTW {
	var s1, s2 = ShrinkLongest(elemt1.([][]float64), elemt2.([][]float64), space.innerSpace, space.window)
	return NewDTWWindow(s1, s2, space.innerSpace, space.window)
}
"""), FN(SE, '(space Space) Combine', """func (space Space) Combine(elemt1 core.Elemt, weight1 int, elemt2 core.Elemt, weight2 int) core.Elemt {
	return space.align(elemt1, elemt2).DBA(weight1, weight2)
}
"""), FN(SE, '(space Space) getSeries', ""), FN(SE, '(space Space) Copy', """func (space Space) Copy(elemt core.Elemt) core.Elemt {
	var copied [][]float64
	copied = make([][]float64, 0, len(elemt.([][]float64)))
	for _, point := range elemt.([][]float64) {
		copied = append(copied, append([]float64(nil), point...))
	}
	return copied
}
"""))
R('r3-kmeans', FN('kmeans/seq.go', '(strategy *SeqStrategy) Iterate', """func (strategy *SeqStrategy) Iterate(space core.Space, centroids core.Clust, data []core.Elemt) core.Clust {
	var averages, cards = centroids.ReduceDBA(data, space)
	var result = make(core.Clust, len(centroids))
	for label, card := range cards {
		if card > 0 {
			result[label] = averages[label]
		} else {
			result[label] = centroids[label]
		}
	}
	return result
}
"""), FN('kmeans/seq.go', '(strategy SeqStrategy) buildResult', ""), FN('kmeans/impl.go', '(impl *Impl) Iterate', """func (impl *Impl) Iterate(model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	var data = impl.buffer.Data()
	var clust = impl.strategy.Iterate(model.Space(), model.Centroids(), data)
	if err := impl.buffer.Apply(); err != nil {
		return clust, nil, err
	}
	return clust, nil, nil
}
"""))
R('r3-conf', FN(KC, '(conf *Conf) Verify', """func (conf *Conf) Verify() error {
	conf.SetDefaultValues()
	if conf.K >= 1 {
		return nil
	}
	return fmt.Errorf("Illegal value for K: %v", conf.K)
}
"""), FN(MCF, '(conf *Conf) Verify', """func (conf *Conf) Verify() error {
	conf.SetDefaultValues()
	switch {
	case conf.InitK < 1:
		return fmt.Errorf("Illegal value for K: %v", conf.InitK)
	case conf.MaxK != 0 && conf.MaxK < conf.InitK:
		return fmt.Errorf("Illegal value for Max K / Init K: %v / %v", conf.MaxK, conf.InitK)
	}
	return nil
}
"""), FN(CCF, '(conf *CtrlConf) Verify', """func (conf *CtrlConf) Verify() error {
	conf.SetDefaultValues()
	return firstError(
		notNegative("IterPerData", float64(conf.IterPerData)),
		notNegative("DataPerIter", float64(conf.DataPerIter)),
		notNegative("IterFreq", conf.IterFreq),
		notNegative("Timeout", float64(conf.Timeout)),
		notNegative("Iter", float64(conf.Iter)),
	)
}

func firstError(errs ...error) error {
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func notNegative(name string, value float64) error {
	if value < 0 {
		return errors.New(name + " must be greater or equal than 0")
	}
	return nil
}
"""))

# --- r4: types and fields rearranged
R('r4-counters', (ALG, """	newData        int
	pushedData     int
	iterations     int
	duration       time.Duration
	lastDataTime   int64
	timeout        Timeout
""", """	counters
	timeout        Timeout
"""), (ALG, """// NewAlgo creates""", """// counters of an algorithm, with the model lock
type counters struct {
	newData      int
	pushedData   int
	iterations   int
	duration     time.Duration
	lastDataTime int64
}

// NewAlgo creates"""))
R('r4-counters2', (ALG, """	newData        int
	pushedData     int
	iterations     int
	duration       time.Duration
	lastDataTime   int64
	timeout        Timeout
""", """	counters
	timeout        Timeout
"""), (ALG, """// NewAlgo creates""", """// counters of an algorithm, with the model lock
type counters struct {
	newData      int
	pushedData   int
	iterations   int
	duration     time.Duration
	lastDataTime int64
}

func (c *counters) pushed() {
	c.pushedData++
	c.lastDataTime = time.Now().Unix()
}

// NewAlgo creates"""), (CTR, """		algo.pushedData = 0
		algo.duration = 0
		algo.lastDataTime = 0
		algo.iterations = 0
""", """		algo.counters = counters{newData: algo.newData}
"""), (CTR, """		algo.pushedData++
		algo.lastDataTime = time.Now().Unix()
""", """		algo.counters.pushed()
"""))
R('r4-channels', (ALG, """	statusChannel  chan OCStatus
	ackChannel     chan bool
	notifChannel   chan OCStatus
""", """	channels
"""), (ALG, """// NewAlgo creates""", """type channels struct {
	statusChannel chan OCStatus
	ackChannel    chan bool
	notifChannel  chan OCStatus
}

// NewAlgo creates"""), (ALG, """		statusChannel:  make(chan OCStatus),
		ackChannel:     make(chan bool),
""", """		channels: channels{
			statusChannel: make(chan OCStatus),
			ackChannel:    make(chan bool),
		},
"""))
R('r4-mutex', (ALG, 'modelMutex  sync.RWMutex', 'modelMutex  sync.Mutex'), (ALG, """	algo.modelMutex.RLock()
	var statusNotifier = algo.conf.Ctrl().StatusNotifier
	algo.modelMutex.RUnlock()
""", """	var statusNotifier = algo.Conf().Ctrl().StatusNotifier
"""), FN(MOD, '(algo *Algo) Centroids', """func (algo *Algo) Centroids() (centroids Clust) {
	defer algo.lockModel()()
	return algo.centroids
}

func (algo *Algo) lockModel() func() {
	algo.modelMutex.Lock()
	return algo.modelMutex.Unlock
}
"""), FN(MOD, '(algo *Algo) Space', """func (algo *Algo) Space() Space {
	defer algo.lockModel()()
	return algo.space
}
"""), FN(MOD, '(algo *Algo) RuntimeFigures', """func (algo *Algo) RuntimeFigures() (figures RuntimeFigures) {
	defer algo.lockModel()()
	figures = make(RuntimeFigures, len(algo.runtimeFigures))
	for name, value := range algo.runtimeFigures {
		figures[name] = value
	}
	return
}
"""), FN(MOD, '(algo *Algo) Conf', """func (algo *Algo) Conf() Conf {
	defer algo.lockModel()()
	return algo.conf
}
"""), FN(MOD, '(algo *Algo) Impl', """func (algo *Algo) Impl() Impl {
	defer algo.lockModel()()
	return algo.impl
}
"""))
R('r4-init-locked', FN(CTR, '(algo *Algo) Init()', """func (algo *Algo) Init() (err error) {
	algo.withStatus(func() { err = algo.init() })
	return
}

func (algo *Algo) withStatus(do func()) {
	algo.ctrlMutex.Lock()
	defer algo.ctrlMutex.Unlock()
	algo.statusMutex.Lock()
	defer algo.statusMutex.Unlock()
	do()
}
"""))
R('r4-model', FN(CTR, '(algo *Algo) Copy', """func (algo *Algo) Copy(conf Conf, space Space) (OnlineClust, error) {
	var model = SimpleOCModel{
		conf:           conf,
		space:          space,
		status:         algo.Status(),
		runtimeFigures: algo.RuntimeFigures(),
		centroids:      algo.Centroids(),
	}
	var impl, err = algo.impl.Copy(model)
	if err != nil {
		return nil, err
	}
	return NewAlgo(conf, impl, space), nil
}
"""), FN(ALG, 'NewAlgo', """func NewAlgo(conf Conf, impl Impl, space Space) *Algo {
	if err := PrepareConf(conf); err != nil {
		panic(err)
	}
	var algo Algo
	algo.conf, algo.impl, algo.space = conf, impl, space
	algo.status = NewOCStatus(Created)
	algo.statusChannel = make(chan OCStatus)
	algo.ackChannel = make(chan bool)
	algo.runtimeFigures = make(RuntimeFigures)
	return &algo
}
"""))
R('r4-prop-ptr', (MI, """	current     proposal
}""", """	current     *proposal
}"""), (MI, "		impl.current = proposal{\n", "		impl.current = &proposal{\n"), (MI, """func (impl *Impl) doIter(conf Conf, space core.Space, current proposal, centroids core.Clust, data []core.Elemt, time int) (proposal, core.Clust) {
	var prop = impl.propose(conf, space, current, centroids, data, time)

	if impl.accept(conf, current, prop, time) {
		current = prop
""", """func (impl *Impl) doIter(conf Conf, space core.Space, current *proposal, centroids core.Clust, data []core.Elemt, time int) (*proposal, core.Clust) {
	var prop = impl.propose(conf, space, *current, centroids, data, time)

	if impl.accept(conf, *current, prop, time) {
		current = &prop
"""))
R('r4-fin-struct', FN(FIN, '(i IterFinishing) IsFinished', """func (i IterFinishing) IsFinished(ocm OCModel) bool {
	return i.limited() && i.consumed(ocm.RuntimeFigures())
}

func (i IterFinishing) limited() bool {
	return i.Iter > 0 || i.IterPerData > 0
}

func (i IterFinishing) consumed(figures RuntimeFigures) bool {
	var iterations, pushed = int(figures[Iterations]), int(figures[PushedData])
	return !(iterations < i.Iter+pushed*i.IterPerData)
}
"""))
R('r4-or', (CTR, """	var finishing Finishing = NewIterFinishing(conf.Iter, conf.IterPerData)
	if conf.Finishing != nil {
		finishing = NewOrFinishing(finishing, conf.Finishing)
	}
""", """	var budget = NewIterFinishing(conf.Iter, conf.IterPerData)
"""), (CTR, "Running && !IsFinished(finishing, algo) {", "Running && !budget.IsFinished(algo) && !IsFinished(conf.Finishing, algo) {"))

# ---- r5: small types and methods that carry what was in local variables
R('r5-nearest', FN(CL, '(c *Clust) nearest', """func (c *Clust) nearest(elemt Elemt, space Space) (label int, min float64) {
	var best = candidate{label: -1, dist: -1}
	for i, centroid := range *c {
		best.offer(i, space.Dist(elemt, centroid))
	}
	return best.label, best.dist
}

type candidate struct {
	label int
	dist  float64
}

func (b *candidate) offer(label int, dist float64) {
	if b.label < 0 || dist < b.dist {
		b.label, b.dist = label, dist
	}
}
"""))
R('r5-losses', FN(CL, '(c *Clust) ReduceLoss(', """func (c *Clust) ReduceLoss(elemts []Elemt, space Space, norm float64) ([]float64, []int) {
	var t = newTally(len(*c), norm)
	for _, elemt := range elemts {
		t.add(c.nearest(elemt, space))
	}
	return t.losses, t.cards
}

type tally struct {
	losses []float64
	cards  []int
	norm   float64
}

func newTally(k int, norm float64) *tally {
	return &tally{make([]float64, k), make([]int, k), norm}
}

func (t *tally) add(label int, dist float64) {
	t.cards[label]++
	t.losses[label] += math.Pow(dist, t.norm)
}
"""), FN(CL, '(c *Clust) ReduceLossForLabels', """func (c *Clust) ReduceLossForLabels(elemts []Elemt, labels []int, space Space, norm float64) ([]float64, []int) {
	var t = newTally(len(*c), norm)
	for i, elemt := range elemts {
		t.add(labels[i], space.Dist(elemt, (*c)[labels[i]]))
	}
	return t.losses, t.cards
}
"""))
R('r5-reduction', FN(CL, '(c *Clust) ReduceDBA(', """func (c *Clust) ReduceDBA(elemts []Elemt, space Space) (centroids Clust, cards []int) {
	var r = newReduction(len(*c), space)
	for _, elemt := range elemts {
		var label, _ = c.nearest(elemt, space)
		r.add(label, elemt)
	}
	return r.means, r.cards
}

type reduction struct {
	space Space
	means []Elemt
	cards []int
}

func newReduction(k int, space Space) reduction {
	return reduction{space: space, means: make([]Elemt, k), cards: make([]int, k)}
}

func (r reduction) add(label int, elemt Elemt) {
	if r.cards[label] == 0 {
		r.means[label] = r.space.Copy(elemt)
	} else {
		r.means[label] = r.space.Combine(r.means[label], r.cards[label], elemt, 1)
	}
	r.cards[label]++
}
"""), FN(CL, '(c *Clust) ReduceDBAForLabels', """func (c *Clust) ReduceDBAForLabels(elemts []Elemt, labels []int, space Space) (means []Elemt, cards []int) {
	var r = newReduction(len(*c), space)
	for i := range elemts {
		r.add(labels[i], elemts[i])
	}
	return r.means, r.cards
}
"""))
R('r5-dba', FN(CL, 'DBA(', """func DBA(elemts []Elemt, space Space) (Elemt, error) {
	return average(elemts, func(int) int { return 1 }, space)
}

func average(elemts []Elemt, weight func(i int) int, space Space) (dba Elemt, err error) {
	if len(elemts) == 0 {
		return nil, errors.New("DBA needs at least one elements")
	}
	dba = space.Copy(elemts[0])
	var total = weight(0)
	for i, elemt := range elemts[1:] {
		dba = space.Combine(dba, total, elemt, weight(i+1))
		total += weight(i + 1)
	}
	return dba, nil
}
"""), FN(CL, 'WeightedDBA(', """func WeightedDBA(elemts []Elemt, weights []int, space Space) (dba Elemt, err error) {
	return average(elemts, func(i int) int { return weights[i] }, space)
}
"""))
R('r5-buffer', FN(BUF, '(s *fixedSizeStrategy) push', """func (s *fixedSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
	var at = s.next()
	if at == len(data) {
		return append(data, elemt)
	}
	data[at] = elemt
	return data
}

func (s *fixedSizeStrategy) next() int {
	if s.position == s.size {
		s.position = 0
	}
	defer func() { s.position++ }()
	return s.position
}
"""))
R('r5-buffer-apply', FN(BUF, '(b *DataBuffer) Apply', """func (b *DataBuffer) Apply() error {
	for {
		elemt, ok := b.staged()
		if !ok {
			return nil
		}
		b.add(elemt)
	}
}

func (b *DataBuffer) add(elemt Elemt) {
	b.data = b.strategy.push(b.data, elemt)
}
"""), FN(BUF, '(b *DataBuffer) applyNext', """func (b *DataBuffer) staged() (elmt Elemt, ok bool) {
	select {
	case elmt, ok = <-b.pipe:
	default:
	}
	return
}
"""))
R('r5-setstatus', FN(ALG, '(algo *Algo) setStatus', """func (algo *Algo) setStatus(status OCStatus, safe bool) {
	if safe {
		algo.lockAndSet(status)
	} else {
		algo.status = status
	}
	algo.announce(status)
}

func (algo *Algo) lockAndSet(status OCStatus) {
	algo.statusMutex.Lock()
	defer algo.statusMutex.Unlock()
	algo.status = status
}

func (algo *Algo) announce(status OCStatus) {
	algo.notifChannel <- status
}
"""))
R('r5-setstatus2', FN(ALG, '(algo *Algo) setStatus', """func (algo *Algo) setStatus(status OCStatus, safe bool) {
	var lock, unlock = func() {}, func() {}
	if safe {
		lock, unlock = algo.statusMutex.Lock, algo.statusMutex.Unlock
	}
	lock()
	algo.status = status
	unlock()
	algo.notifChannel <- status
}
"""))
R('r5-notifier', FN(ALG, '(algo *Algo) notificationLoop', """func (algo *Algo) notificationLoop() {
	var q = queue{out: make(chan OCStatus)}
	defer q.close()
	go algo.notifyAll(q.out)
	for q.step(algo.notifChannel) {
	}
}

type queue struct {
	out     chan OCStatus
	pending []OCStatus
}

func (q *queue) close() {
	close(q.out)
}

// step receives a status, or forwards the first one. It returns false once there are no more to receive
func (q *queue) step(in <-chan OCStatus) (ok bool) {
	if len(q.pending) == 0 {
		var status OCStatus
		if status, ok = <-in; ok {
			q.pending = append(q.pending, status)
		}
		return
	}
	select {
	case status, more := <-in:
		if more {
			q.pending = append(q.pending, status)
		}
		return more
	case q.out <- q.pending[0]:
		q.pending = q.pending[1:]
		return true
	}
}
"""))
R('r5-timeout', FN(TMO, 'WaitTimeout', """func WaitTimeout(finishing Finishing, duration time.Duration, ocm OCModel) error {
	if finishing == nil {
		finishing = NewStatusFinishing(true, Ready, Idle, Finished)
	}
	var limit deadline
	if duration > 0 {
		limit = deadline{true, time.Now().Add(duration)}
	}
	for !IsFinished(finishing, ocm) {
		if limit.passed() {
			return ErrTimeout
		}
		time.Sleep(100 * time.Millisecond)
	}
	return ocm.Status().Error
}

type deadline struct {
	set  bool
	time time.Time
}

func (d deadline) passed() bool {
	return d.set && time.Now().After(d.time)
}
"""), FN(TMO, '(t *timeout) isFinished', ''), FN(TMO, '(t *timeout) isTimeout', ''), FN(TMO, '(t *timeout) wait', ''), (TMO, """	finishing    Finishing
	ocm          OCModel
""", ""))
R('r5-wait', FN(CTR, '(algo *Algo) Wait', """func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) error {
	var status = algo.Status().Value
	if status == Ready || status == Finished {
		return nil
	}
	if status == Idle {
		return ErrIdle
	}
	if status != Running {
		return ErrNotRunning
	}
	if algo.CanNeverFinish(finishing, timeout) {
		return ErrNeverFinish
	}
	return WaitTimeout(finishing, timeout, algo)
}
"""))
R('r5-wait-map', FN(CTR, '(algo *Algo) Wait', """func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
	var value = algo.Status().Value
	if value == Running && !algo.CanNeverFinish(finishing, timeout) {
		return WaitTimeout(finishing, timeout, algo)
	}
	switch value {
	case Running:
		err = ErrNeverFinish
	case Idle:
		err = ErrIdle
	case Created, Initializing:
		err = ErrNotRunning
	}
	return
}
"""))
R('r5-interrupt', FN(CTR, '(algo *Algo) interrupt', """func (algo *Algo) interrupt(interruption error, enabled func() bool) (err error) {
	algo.ctrlMutex.Lock()
	defer algo.ctrlMutex.Unlock()
	var final = NewOCStatusError(interruption)
	var running, done = algo.tryInterrupt(final, enabled)
	if running {
		algo.sendStatus(final)
		return algo.Status().Error
	}
	if !done {
		err = ErrNotAlive
	}
	return
}

// tryInterrupt interrupts an algorithm that does not run
func (algo *Algo) tryInterrupt(final OCStatus, enabled func() bool) (running, done bool) {
	algo.statusMutex.Lock()
	defer algo.statusMutex.Unlock()
	if !enabled() {
		return false, true
	}
	switch algo.status.Value {
	case Ready:
		algo.setStatus(final, false)
		done = true
	case Idle, Running:
		running = true
	}
	return
}
"""))
R('r5-terminate', FN(CTR, '(algo *Algo) terminate', """func (algo *Algo) terminate(err error, start time.Time, timeout Timeout) {
	algo.statusMutex.Lock()
	defer algo.statusMutex.Unlock()
	// free client ack channel, at the end
	defer func() {
		select {
		case <-algo.ackChannel:
		default:
			close(algo.ackChannel)
		}
	}()
	if timeout != nil {
		timeout.Disable()
	}
	if final, changed := algo.finalStatus(err); changed {
		algo.setStatus(final, false)
	}
	time.Sleep(100 * time.Millisecond)
	algo.addDuration(time.Since(start))
	select {
	case status := <-algo.statusChannel:
		if err != nil || status.Value != Finished {
			return
		}
		algo.setStatus(status, false)
	default:
	}
}

func (algo *Algo) finalStatus(err error) (status OCStatus, changed bool) {
	switch {
	case err != nil:
		return NewOCStatusError(err), true
	case algo.status.Value == Running:
		return NewOCStatus(Ready), true
	}
	return
}

func (algo *Algo) addDuration(duration time.Duration) {
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.duration += duration
	algo.runtimeFigures[Duration] = float64(algo.duration)
}
"""))
R('r5-start', FN(CTR, '(algo *Algo) start()', """func (algo *Algo) start() {
	if previous := algo.timeout; previous != nil {
		previous.Disable()
	}
	algo.timeout = algo.newTimeout()
	go algo.run(algo.timeout)
	algo.statusMutex.Unlock()
	algo.sendStatus(NewOCStatus(Running))
}

func (algo *Algo) newTimeout() (timeout Timeout) {
	if duration := algo.Conf().Ctrl().Timeout; duration > 0 {
		timeout = InterruptionTimeout(duration, func(err error) error {
			return algo.interrupt(err, func() bool { return timeout.Enabled() })
		})
	}
	return
}
"""))
R('r5-push', FN(CTR, '(algo *Algo) Push', """func (algo *Algo) Push(elemt Elemt) error {
	if err := algo.impl.Push(elemt, algo); err != nil {
		return err
	}
	// the status lock is always taken before the model lock
	if ready := algo.Status().Value == Ready; algo.countPush(ready) {
		algo.playReady()
	}
	return nil
}

// countPush counts an element, and tells whether to play
func (algo *Algo) countPush(ready bool) (play bool) {
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.pushedData++
	algo.lastDataTime = time.Now().Unix()
	var batch = algo.conf.Ctrl().DataPerIter
	if play = ready && batch > 0 && algo.newData >= batch; play {
		algo.newData = 0
	} else {
		algo.newData++
	}
	algo.updateRuntimeFigures()
	return
}
"""))
R('r5-batch', FN(CTR, '(algo *Algo) Batch', """func (algo *Algo) Batch() error {
	algo.Stop()
	for _, step := range []func() error{algo.Play, algo.waitEnd} {
		if err := step(); err != nil {
			return err
		}
	}
	algo.Stop()
	return nil
}

func (algo *Algo) waitEnd() error {
	if err := algo.Wait(nil, 0); err != nil {
		return err
	}
	return algo.Status().Error
}
"""))
R('r5-batch2', FN(CTR, '(algo *Algo) Batch', """func (algo *Algo) Batch() (err error) {
	algo.Stop()
	if err = algo.Play(); err != nil {
		return
	}
	if err = algo.Wait(nil, 0); err != nil {
		return
	}
	// the run may have failed before the wait
	if err = algo.Status().Error; err != nil {
		return
	}
	_ = algo.Stop()
	return
}
"""))
R('r5-init', FN(CTR, '(algo *Algo) init()', """func (algo *Algo) init() (err error) {
	switch algo.status.Value {
	case Created:
		algo.notifChannel = make(chan OCStatus)
		go algo.notificationLoop()
	case Finished:
		algo.reset()
	default:
		return ErrAlreadyCreated
	}
	algo.setStatus(NewOCStatus(Initializing), false)
	var next = NewOCStatus(Ready)
	if err = algo.initCentroids(); err != nil {
		next = NewOCStatusError(err)
	}
	algo.setStatus(next, false)
	return
}

func (algo *Algo) initCentroids() error {
	var centroids, err = algo.initImpl()
	if err != nil {
		return err
	}
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.centroids = centroids
	return nil
}

// reset the counters before a new life
func (algo *Algo) reset() {
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.pushedData, algo.iterations = 0, 0
	algo.duration, algo.lastDataTime = 0, 0
	algo.runtimeFigures = RuntimeFigures{}
	algo.updateRuntimeFigures()
}
"""))
R('r5-iterate', (CTR, """			centroids, runtimeFigures, err = algo.impl.Iterate(
				NewSimpleOCModel(
					algo.conf, algo.space, algo.Status(), algo.RuntimeFigures(), algo.Centroids(),
				),
			)
			duration = time.Now().Sub(start)
			if err == nil {
				if centroids != nil { // an iteration has been executed
					algo.modelMutex.Lock()
					algo.iterations++
					algo.saveIterContext(
						centroids, runtimeFigures, duration,
					)
					algo.modelMutex.Unlock()
				}
""", """			var it = algo.iterate()
			duration = time.Since(start)
			if err = it.err; err == nil {
				algo.keep(it, duration)
"""), (CTR, """	var centroids Clust
	var runtimeFigures RuntimeFigures
	var iterFreq""", "	var iterFreq"), (CTR, """func (algo *Algo) updateRuntimeFigures() {""", """// iteration is what an iteration of the implementation returns
type iteration struct {
	centroids Clust
	figures   RuntimeFigures
	err       error
}

func (algo *Algo) iterate() (it iteration) {
	var model = NewSimpleOCModel(algo.conf, algo.space, algo.Status(), algo.RuntimeFigures(), algo.Centroids())
	it.centroids, it.figures, it.err = algo.impl.Iterate(model)
	return
}

func (algo *Algo) keep(it iteration, duration time.Duration) {
	if it.centroids == nil {
		return
	}
	algo.modelMutex.Lock()
	defer algo.modelMutex.Unlock()
	algo.iterations++
	algo.saveIterContext(it.centroids, it.figures, duration)
}

func (algo *Algo) updateRuntimeFigures() {"""))
R('r5-pace', (CTR, """				// temporize iteration
				if iterFreq > 0 { // with iteration freqency
					var diff = iterFreq - time.Now().Sub(lastIterationTime)
					time.Sleep(diff)
					lastIterationTime = time.Now()
				}
""", """				rhythm.wait()
"""), (CTR, """	var iterFreq time.Duration
	if conf.IterFreq > 0 {
		iterFreq = time.Duration(float64(time.Second) / conf.IterFreq)
	}
	var lastIterationTime = time.Now()
""", """	var rhythm = newPace(conf.IterFreq)
"""), (CTR, """func (algo *Algo) updateRuntimeFigures() {""", """// pace of the iterations
type pace struct {
	period time.Duration
	last   time.Time
}

func newPace(freq float64) *pace {
	var p = &pace{last: time.Now()}
	if freq > 0 {
		p.period = time.Duration(float64(time.Second) / freq)
	}
	return p
}

func (p *pace) wait() {
	if p.period > 0 {
		time.Sleep(p.period - time.Since(p.last))
		p.last = time.Now()
	}
}

func (algo *Algo) updateRuntimeFigures() {"""))
INI='kmeans/init.go'; SEQ='kmeans/seq.go'; MIM='mcmc/impl.go'; MST='mcmc/store.go'; STR='streaming/impl.go'; COST='dtw/cost.go'; INTP='dtw/interpolate.go'; DTWF='dtw/dtw.go'; EUC='euclid/vectors.go'; MVT='mcmc/multivt.go'; LATE='mcmc/latedistrib.go'
R('r5-par-struct', FN(UT, 'Par(', """func Par(process func(int, int, int), size int, degree int) {
	var t = task{process: process, panics: make([]interface{}, degree)}
	t.wg.Add(degree)
	var parts = split(size, degree)
	for rank := range parts {
		go t.run(parts[rank], rank)
	}
	t.wg.Wait()
	t.raise()
}

type part struct{ start, end int }

type task struct {
	process func(int, int, int)
	panics  []interface{}
	wg      sync.WaitGroup
}

func (t *task) run(p part, rank int) {
	defer t.wg.Done()
	defer func() { t.panics[rank] = recover() }()
	t.process(p.start, p.end, rank)
}

// raise a panic in the calling go routine, which can recover it
func (t *task) raise() {
	for _, reason := range t.panics {
		if reason != nil {
			panic(reason)
		}
	}
}

// split a size in parts, the last ones may have one more
func split(size, degree int) []part {
	var parts = make([]part, degree)
	var start = 0
	for i := range parts {
		var end = start + size/degree
		if i >= degree-size%degree {
			end++
		}
		parts[i] = part{start, end}
		start = end
	}
	return parts
}
"""))
R('r5-dba-parts', FN(DBA, 'parReduceDBA', """func parReduceDBA(centroids Clust, data []Elemt, space Space, degree int) (Clust, []int) {
	var aggr = dbaParts(len(data), degree, space, func(start, end int) (Clust, []int) {
		return centroids.ReduceDBA(data[start:end], space)
	})
	return buildResult(centroids, aggr)
}

func dbaParts(size, degree int, space Space, reduce func(start, end int) (Clust, []int)) dbaPartition {
	var parts = make([]dbaPartition, degree)
	Par(func(start, end, rank int) {
		parts[rank].dbas, parts[rank].cards = reduce(start, end)
	}, size, degree)
	return dbaAggregate(parts, space)
}
"""), FN(DBA, 'parDBAForLabels', """func parDBAForLabels(centroids Clust, data []Elemt, labels []int, space Space, degree int) ([]Elemt, []int) {
	var aggr = dbaParts(len(data), degree, space, func(start, end int) (means Clust, cards []int) {
		means, cards = centroids.ReduceDBAForLabels(data[start:end], labels[start:end], space)
		return
	})
	return aggr.dbas, aggr.cards
}
"""), FN(DBA, 'dbaReduceForLabels', ''), FN(DBA, 'dbaReduce(', ''))
R('r5-loss-parts', FN(LOSS, 'parLoss(', """func parLoss(centroids Clust, data []Elemt, space Space, norm float64, degree int) ([]float64, []int) {
	return lossParts(len(data), degree, func(start, end int) ([]float64, []int) {
		return centroids.ReduceLoss(data[start:end], space, norm)
	})
}

func lossParts(size, degree int, reduce func(start, end int) ([]float64, []int)) ([]float64, []int) {
	var parts = make([]partitionLosses, degree)
	Par(func(start, end, rank int) {
		var losses, cards = reduce(start, end)
		parts[rank] = partitionLosses{losses, cards}
	}, size, degree)
	var aggr = lossAggregate(parts)
	return aggr.losses, aggr.cards
}
"""), FN(LOSS, 'parLossForLabels', """func parLossForLabels(centroids Clust, data []Elemt, labels []int, space Space, norm float64, degree int) ([]float64, []int) {
	return lossParts(len(data), degree, func(start, end int) ([]float64, []int) {
		return centroids.ReduceLossForLabels(data[start:end], labels[start:end], space, norm)
	})
}
"""), FN(LOSS, 'lossReduceForLabels', ''), FN(LOSS, 'lossReduce(', ''))
R('r5-combine', FN(DBA, 'dbaAggregate', """func dbaAggregate(parts []dbaPartition, space Space) (aggregate dbaPartition) {
	for i, other := range parts {
		if i == 0 {
			aggregate = other
			continue
		}
		for label := range aggregate.dbas {
			aggregate.merge(label, other, space)
		}
	}
	return
}

func (p *dbaPartition) merge(label int, other dbaPartition, space Space) {
	var n1, n2 = p.cards[label], other.cards[label]
	switch {
	case n2 == 0:
		return
	case n1 == 0:
		p.dbas[label] = other.dbas[label]
	default:
		p.dbas[label] = space.Combine(p.dbas[label], n1, other.dbas[label], n2)
	}
	p.cards[label] = n1 + n2
}
"""), FN(DBA, 'dbaCombine', ''))
R('r5-init-err', FN(INI, 'PPInitializer', """func PPInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (core.Clust, error) {
	if err := check(k, elemts); err != nil {
		return nil, err
	}
	var first = elemts[src.Intn(len(elemts))]
	var centroids = core.Clust{space.Copy(first)}
	for len(centroids) < k {
		var next, err = PPIter(centroids, elemts, space, src)
		centroids = append(centroids, next)
		if err != nil {
			return append(centroids, make(core.Clust, k-len(centroids))...), err
		}
	}
	return centroids, nil
}
"""))
R('r5-choice', FN(INI, 'WeightedChoice', """func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
	var sum = total(weights)
	if sum == 0 {
		return 0, ErrNullSet
	}
	return find(weights, rand.Float64()*sum), nil
}

func total(weights []float64) (sum float64) {
	for i := range weights {
		sum += weights[i]
	}
	return
}

// find the index of the weight below a cursor, or the last positive one
func find(weights []float64, cursor float64) (idx int) {
	for i, weight := range weights {
		if !(weight > 0) {
			continue
		}
		if cursor < weight {
			return i
		}
		idx = i
		cursor -= weight
	}
	return
}
"""))
R('r5-rand', FN(INI, 'RandInitializer', """func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Rand) (centroids core.Clust, err error) {
	if err = check(k, elemts); err != nil {
		return
	}
	var d = draws{n: len(elemts), src: src, done: map[int]struct{}{}}
	centroids = make(core.Clust, k)
	for i := range centroids {
		centroids[i] = space.Copy(elemts[d.next()])
	}
	return
}

// draws without replacement
type draws struct {
	n    int
	src  *rand.Rand
	done map[int]struct{}
}

func (d draws) next() int {
	for {
		var i = d.src.Intn(d.n)
		if _, found := d.done[i]; !found {
			d.done[i] = struct{}{}
			return i
		}
	}
}
"""))
R('r5-seq', FN(SEQ, '(strategy *SeqStrategy) Iterate', """func (strategy *SeqStrategy) Iterate(space core.Space, centroids core.Clust, data []core.Elemt) core.Clust {
	var result, cards = centroids.ReduceDBA(data, space)
	for i, card := range cards {
		if card == 0 {
			result[i] = centroids[i]
		}
	}
	return result
}
"""), FN(SEQ, '(strategy SeqStrategy) buildResult', ''))
R('r5-doiter', FN(MIM, '(impl *Impl) doIter', """func (impl *Impl) doIter(conf Conf, space core.Space, current proposal, centroids core.Clust, data []core.Elemt, time int) (proposal, core.Clust) {
	var prop = impl.propose(conf, space, current, centroids, data, time)
	if !impl.accept(conf, current, prop, time) {
		return current, centroids
	}
	impl.accepted(prop)
	return prop, prop.centers
}

func (impl *Impl) accepted(prop proposal) {
	impl.acc++
	impl.store.SetCenters(prop.centers)
}
"""))
R('r5-accept', FN(MIM, '(impl *Impl) accept(', """func (impl *Impl) accept(conf Conf, current proposal, prop proposal, time int) bool {
	impl.lambda = conf.Amp * math.Sqrt(float64(3+impl.dim)/float64(time))
	impl.rGibbs = impl.lambda * (current.loss - prop.loss)
	impl.rho = math.Exp(impl.rGibbs + impl.prior(conf.B, current.k-prop.k) + current.pdf - prop.pdf)
	return impl.rho > impl.uniform.Rand()
}

func (impl *Impl) prior(bound float64, step int) float64 {
	return float64(step*impl.dim) * math.Log(2*bound)
}
"""))
R('r5-nextk', FN(MIM, '(impl *Impl) nextK', """func (impl *Impl) nextK(conf Conf, k int, data []core.Elemt) int {
	var i, _ = kmeans.WeightedChoice(conf.ProbaK, conf.RGen)
	return clamp(k+i-1, 1, conf.MaxK, len(data))
}

func clamp(v, low int, highs ...int) int {
	if v < low {
		return low
	}
	for _, high := range highs {
		if v > high {
			return high
		}
	}
	return v
}
"""))
R('r5-nextk2', FN(MIM, '(impl *Impl) nextK', """func (impl *Impl) nextK(conf Conf, k int, data []core.Elemt) (newK int) {
	var i, _ = kmeans.WeightedChoice(conf.ProbaK, conf.RGen)
	newK = k + i - 1
	var max = conf.MaxK
	if newK <= max && len(data) < max {
		max = len(data)
	}
	if newK > max {
		newK = max
	}
	if newK < 1 {
		newK = 1
	}
	return
}
"""))
R('r5-store', FN(MST, '(store *CenterStore) GetCenters', """func (store *CenterStore) GetCenters(data []core.Elemt, space core.Space, k int, clust core.Clust) (core.Clust, error) {
	if centers, ok := store.centers[k]; ok {
		return centers, nil
	}
	switch prevK := len(clust); {
	case prevK < k:
		return store.addCenter(data, space, prevK, clust)
	case prevK > k:
		return store.delCenter(space, prevK, clust), nil
	default:
		return clust, nil
	}
}
"""), FN(MST, '(store *CenterStore) genCenters', ''))
R('r5-del', FN(MST, '(store *CenterStore) delCenter', """func (store *CenterStore) delCenter(space core.Space, prevK int, prev core.Clust) core.Clust {
	var del = store.rgen.Intn(prevK)
	var clust = make(core.Clust, 0, prevK-1)
	for i, center := range prev {
		if i != del {
			clust = append(clust, space.Copy(center))
		}
	}
	return clust
}
"""))
R('r5-stream', FN(STR, '(impl *Impl) Process', """func (impl *Impl) Process(elemt core.Elemt, space core.Space) {
	defer func() { impl.count++ }()
	var _, label, distance = impl.clust.Assign(elemt, space)
	var relative = impl.GetRelativeDistance(distance)
	switch {
	case impl.outlier(relative):
		impl.AddOutlier(elemt)
	case impl.norm.Rand() < relative:
		impl.AddCenter(elemt, distance)
	default:
		impl.UpdateCenter(label, elemt, distance, space)
	}
}

func (impl *Impl) outlier(relative float64) bool {
	return impl.count >= impl.conf.OutAfter && relative > impl.conf.OutRatio
}
"""))
R('r5-stream-add', FN(STR, '(impl *Impl) AddCenter', """func (impl *Impl) AddCenter(cluster core.Elemt, distance float64) {
	impl.AddOutlier(cluster)
	impl.UpdateMaxDistance(distance)
}
"""), FN(STR, '(impl *Impl) UpdateCenter', """func (impl *Impl) UpdateCenter(label int, elemt core.Elemt, distance float64, space core.Space) {
	var center, card = &impl.clust[label], &impl.cards[label]
	*center = space.Combine(*center, *card, elemt, 1)
	*card++
	impl.UpdateMaxDistance(distance)
}
"""))
R('r5-stream-groups', (STR, """	clust       core.Clust
	cards       []int
	c """, """	clusters
	c """), (STR, """// Copy impl
""", """// clusters in the making
type clusters struct {
	clust core.Clust
	cards []int
}

func (c *clusters) add(center core.Elemt) {
	c.clust = append(c.clust, center)
	c.cards = append(c.cards, 1)
}

// Copy impl
"""), FN(STR, '(impl *Impl) AddOutlier', """func (impl *Impl) AddOutlier(outlier core.Elemt) {
	impl.add(outlier)
}
"""), FN(STR, '(impl *Impl) AddCenter', """func (impl *Impl) AddCenter(cluster core.Elemt, distance float64) {
	impl.add(cluster)
	impl.UpdateMaxDistance(distance)
}
"""))
R('r5-cost', FN(COST, '(cumCost *CumCostMatrix) computeCumCost', """func (cumCost *CumCostMatrix) computeCumCost() {
	cumCost.values = make([]float64, cumCost.stride0*cumCost.stride1)
	for i1 := range cumCost.s1 {
		var first, last = cumCost.row(i1)
		for i2 := first; i2 <= last; i2++ {
			var dist = cumCost.space.PointDist(cumCost.s1[i1], cumCost.s2[i2])
			cumCost.values[cumCost.ravel(i1, i2)] = dist + cumCost.before(i1, i2)
		}
	}
}

// row gives the columns of a row inside the window
func (cumCost *CumCostMatrix) row(i1 int) (first, last int) {
	last = len(cumCost.s2) - 1
	if i1 > cumCost.window {
		first = i1 - cumCost.window
	}
	if i1+cumCost.window < last {
		last = i1 + cumCost.window
	}
	return
}

// before gives the cost of the best path to a cell
func (cumCost *CumCostMatrix) before(i1, i2 int) float64 {
	switch {
	case i1 > 0 && i2 > 0:
		var l, u, ul = cumCost.neighborCosts(i1, i2)
		return min(ul, u, l)
	case i1 > 0:
		return cumCost.Get(i1-1, i2)
	case i2 > 0:
		return cumCost.Get(i1, i2-1)
	}
	return 0
}
"""))
R('r5-path', FN(COST, '(cumCost *CumCostMatrix) computePath', """func (cumCost *CumCostMatrix) computePath() {
	var at = Ends{len(cumCost.s1) - 1, len(cumCost.s2) - 1}
	var path = make([]Ends, 0, at.End0+at.End1)
	for at.End0 > 0 || at.End1 > 0 {
		path = append(path, at)
		at = cumCost.previous(at)
	}
	cumCost.path = append(path, Ends{0, 0})
}

func (cumCost *CumCostMatrix) previous(at Ends) Ends {
	if at.End0 == 0 {
		return Ends{0, at.End1 - 1}
	}
	if at.End1 == 0 {
		return Ends{at.End0 - 1, 0}
	}
	var l, u, ul = cumCost.neighborCosts(at.End0, at.End1)
	var i1, i2 = decrPath(ul, u, l, at.End0, at.End1)
	return Ends{i1, i2}
}
"""))
R('r5-interp', FN(INTP, 'Interpolate', """func Interpolate(s [][]float64, idx []int, shrinkFactor int, space PointSpace) [][]float64 {
	var result = make([][]float64, idx[len(s)-1]/shrinkFactor+1)
	result[0] = s[0]
	var j = 1
	for i := 1; i < len(result); i++ {
		j = seek(idx, j, i*shrinkFactor)
		result[i] = pointAt(s, idx, j, i*shrinkFactor, space)
	}
	return result
}

// seek the first index from j that is not before x
func seek(idx []int, j, x int) int {
	for idx[j] < x {
		j++
	}
	return j
}

func pointAt(s [][]float64, idx []int, j, x int, space PointSpace) []float64 {
	var after = idx[j] - x
	if after == 0 {
		return s[j]
	}
	return space.PointCombine(s[j-1], after, s[j], x-idx[j-1])
}
"""))
R('r5-dtw-dba', FN(DTWF, '(dtw DTW) DBA', """func (dtw DTW) DBA(w1, w2 int) [][]float64 {
	var n = len(dtw.path)
	var dba, idx = make([][]float64, 0, n), make([]int, 0, n)
	for i := n - 1; i >= 0; i-- {
		var point, at = dtw.match(dtw.path[i], w1, w2)
		dba, idx = append(dba, point), append(idx, at)
	}
	return Interpolate(dba, idx, w1+w2, dtw.space)
}

// match averages the points and the positions of the ends
func (dtw DTW) match(ends Ends, w1, w2 int) ([]float64, int) {
	return dtw.space.PointCombine(dtw.s1[ends.End0], w1, dtw.s2[ends.End1], w2), ends.End0*w1 + ends.End1*w2
}
"""))
R('r5-euclid', FN(EUC, '(space Space) PointDist', """func (space Space) PointDist(point1 []float64, point2 []float64) float64 {
	return math.Sqrt(sumOfSquares(point1, point2))
}

func sumOfSquares(a, b []float64) (sum float64) {
	for i, x := range a {
		sum += square(x - b[i])
	}
	return
}

func square(x float64) float64 { return x * x }
"""), FN(EUC, '(space Space) PointCombine', """func (space Space) PointCombine(point1 []float64, weight1 int, point2 []float64, weight2 int) []float64 {
	var result = space.PointCopy(point1)
	var total = float64(weight1) + float64(weight2)
	for i, x := range point2[:len(result)] {
		result[i] = (result[i]*float64(weight1) + x*float64(weight2)) / total
	}
	return result
}
"""))
R('r5-pdf', FN(MVT, '(m MultivT) Pdf', """func (m MultivT) Pdf(mu, x core.Elemt, time int) float64 {
	var scale = m.Nu / root(time)
	var shift = squaredDistance(mu.([]float64), x.([]float64))
	var tail = m.power * math.Log(1.+shift/scale)
	return m.gammaFactor - float64(m.Dim)*math.Log(math.Pi*scale)/2. - tail
}

func root(time int) float64 { return math.Sqrt(float64(20 * time)) }

func squaredDistance(a, b []float64) (d float64) {
	for i := range a {
		d += (a[i] - b[i]) * (a[i] - b[i])
	}
	return
}
"""), FN(MVT, '(m MultivT) Sample', """func (m MultivT) Sample(mu core.Elemt, time int) core.Elemt {
	var ratio = math.Sqrt(m.chi2.K/m.chi2.Rand()) / root(time)
	var sample = m.normal.Rand(nil)
	for i, center := range mu.([]float64)[:len(sample)] {
		sample[i] = center + ratio*sample[i]
	}
	return sample
}
"""))
R('r5-late', FN(LATE, '(d *LateDistrib) Sample', """func (d *LateDistrib) Sample(mu core.Elemt, time int) core.Elemt {
	return d.built(mu).Sample(mu, time)
}
"""), FN(LATE, '(d *LateDistrib) Pdf', """func (d *LateDistrib) Pdf(x, mu core.Elemt, time int) float64 {
	return d.built(mu).Pdf(x, mu, time)
}
"""), FN(LATE, '(d *LateDistrib) tryInitialize', """func (d *LateDistrib) built(elemt core.Elemt) Distrib {
	d.mu.Lock()
	defer d.mu.Unlock()
	if !d.initialized {
		d.distrib, d.initialized = d.initializer(elemt), true
	}
	return d.distrib
}
"""))
R('r6-figures', FN(MOD, '(algo *Algo) RuntimeFigures', """func (algo *Algo) RuntimeFigures() RuntimeFigures {
	algo.modelMutex.RLock()
	defer algo.modelMutex.RUnlock()
	return algo.runtimeFigures.clone()
}

func (figures RuntimeFigures) clone() RuntimeFigures {
	var copied = make(RuntimeFigures, len(figures))
	for name, value := range figures {
		copied.set(name, value)
	}
	return copied
}

func (figures RuntimeFigures) set(name string, value float64) {
	figures[name] = value
}
"""))
