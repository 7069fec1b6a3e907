entries = []
def M(name, prop, *edits): entries.append((name, prop, list(edits)))
VEC='euclid/vectors.go'; COS='cosinus/cosinus.go'
M('dist-skip', 'C21', (VEC, 'for i := 0; i < len(point1); i++ {', 'for i := 0; i < len(point1) && sum < 1e300; i++ {'))
M('dist-abs', 'C21', (VEC, 'sum += v * v', 'if v > -1e9 {\n\t\t\tsum += v * v\n\t\t}'))
M('combine-zero', 'C21', (VEC, '	var t = w1 + w2\n', '	var t = w1 + w2\n	if weight1 > 1000000 {\n		t = w1\n	}\n'))
M('combine-int', 'C21', (VEC, '	var t = w1 + w2\n', '	var t = float64(int32(weight1 + weight2))\n'))
M('dim-first', 'C21', (VEC, 'if len(data) > 0 {', 'if len(data) > 1 {'))
M('cos-clip', 'C21', (COS, 'return 1 - Cosinus(point1, point2)', 'if c := Cosinus(point1, point2); c > 0 {\n\t\treturn 1 - c\n\t}\n\treturn 1'))
M('copy-short', 'C21', (VEC, 'copy(newPoint, point)', 'copy(newPoint[1:], point[1:])'))
BUF='core/buffer.go'
M('buf-new-first', 'C14', (BUF, 'data[len(data)-size:]', 'data[:size]'))
M('buf-new-share', 'C14', (BUF, '''		db.data = make([]Elemt, len(data))
		copy(db.data, data)
	}
''', '''		db.data = data
	}
'''))
M('buf-new-share2', 'C14', (BUF, '''		db.data = make([]Elemt, size)
		copy(db.data, data[len(data)-size:])
''', '''		db.data = data[len(data)-size:]
'''))
M('buf-new-pos', 'C14', (BUF, '&fixedSizeStrategy{size, len(data)}', '&fixedSizeStrategy{size, 0}'))
M('buf-new-pos2', 'C14', (BUF, '&fixedSizeStrategy{size, size}', '&fixedSizeStrategy{size, size - 1}'))
M('buf-step-off', 'C14', (BUF, 'if s.position == s.size {', 'if s.position >= s.size-1 && s.size > 100 {'))
M('buf-step-wrap', 'C14', (BUF, '		s.position = 0\n', '		s.position = 1 % s.size\n'))
M('buf-apply-bound', 'C14', (BUF, '	for b.applyNext() {\n	}\n', '	for i := 0; i < 1000 && b.applyNext(); i++ {\n	}\n'))
M('buf-apply-drop', 'C14', (BUF, '''		if ok {
			b.data = b.strategy.push(b.data, elmt)
		}
''', '''		if ok && elmt != nil {
			b.data = b.strategy.push(b.data, elmt)
		}
'''))
M('buf-push-drop', 'C14', (BUF, '		b.pipe <- elmt\n', '		select {\n		case b.pipe <- elmt:\n		default:\n		}\n'))
M('impl-push-running', 'C14', ('mcmc/impl.go', 'model.Status().Alive()', 'model.Status().Value == core.Running'))
M('impl-init-order', 'C14', ('kmeans/impl.go', '''	_ = impl.buffer.Apply()
	return impl.initializer(kmeansConf.K, impl.buffer.Data(), model.Space(), kmeansConf.RGen)
''', '''	var data = impl.buffer.Data()
	_ = impl.buffer.Apply()
	return impl.initializer(kmeansConf.K, data, model.Space(), kmeansConf.RGen)
'''))
MCF='mcmc/conf.go'; CCF='core/conf.go'; SCF='streaming/conf.go'; SAL='streaming/algo.go'
M('conf-timeout', 'C13', (CCF, 'err == nil && conf.Timeout < 0', 'err == nil && conf.Timeout < -1'))
M('conf-iter-over', 'C13', (CCF, '''	if err == nil && conf.Iter < 0 {
		err =''', '''	if conf.Iter < 0 || err == nil && conf.Iter > 1<<40 {
		err ='''))
M('conf-ctrl-missing', 'C13', (CCF, '''	if err == nil {
		err = conf.Ctrl().Verify()
	}
''', '''	if err != nil {
		err = conf.Ctrl().Verify()
	}
'''))
M('conf-norm', 'C13', (MCF, 'if conf.Norm == 0 {', 'if conf.Norm < 1 {'))
M('conf-outafter', 'C13', (SCF, 'if conf.OutAfter < 2 {', 'if conf.OutAfter < 1 {'))
M('conf-probak', 'C13', (MCF, 'if len(conf.ProbaK) == 0 {', 'if len(conf.ProbaK) < 3 {'))
M('conf-maxk', 'C13', (MCF, 'conf.InitK > conf.MaxK && conf.MaxK != 0', 'conf.InitK > conf.MaxK && conf.MaxK > 0'))
M('conf-bufsize', 'C13', (SAL, 'conf.BufferSize < len(data)', 'conf.BufferSize+1 < len(data)'))
M('conf-numcpu', 'C13', ('kmeans/conf.go', 'if conf.NumCPU == 0 {', 'if conf.NumCPU == 0 || conf.NumCPU > runtime.NumCPU() {'))
FIN='core/finish.go'; CTL='core/ctrl.go'
M('fin-ge', 'C11', (FIN, 'cond = int(iterations) >=', 'cond = int(iterations) >'))
M('fin-and-cfg', 'C11', (FIN, 'if i.Iter > 0 || i.IterPerData > 0 {', 'if i.Iter > 0 {'))
M('fin-pushed', 'C11', (FIN, 'int(pushedData)*i.IterPerData', 'int(pushedData*float64(i.IterPerData)/float64(i.IterPerData+1))'))
M('fin-max', 'C11', (FIN, 'var pushedData = rf[PushedData]\n', 'var pushedData = rf[PushedData]\n		if pushedData > 1e6 {\n			pushedData = 1e6\n		}\n'))
M('fin-and-nil', 'C11', (FIN, '''		cond = IsFinished(finishing, ocm)
		if !cond {''', '''		cond = finishing == nil || IsFinished(finishing, ocm)
		if !cond {'''))
M('fin-or-first', 'C11', (FIN, 'for _, finishing := range or.Finishings {', 'for _, finishing := range or.Finishings[:len(or.Finishings)/2+1] {'))
M('fin-or-last', 'C11', (FIN, '''		if cond {
			break
		}
	}
	return
}

// IterFinishing is''', '''		if cond && len(or.Finishings) < 3 {
			break
		}
	}
	return
}

// IterFinishing is'''))
M('fin-status-err', 'C11', (FIN, 'cond = sf.Error && status.Error != nil', 'cond = sf.Error && status.Error != nil && status.Value == Finished'))
M('fin-status-last', 'C11', (FIN, 'range sf.Status {', 'range sf.Status[1:] {'))
M('run-and', 'C11', (CTL, 'finishing = NewOrFinishing(finishing, conf.Finishing)', 'finishing = NewAndFinishing(finishing, conf.Finishing)'))
M('run-nobudget', 'C11', (CTL, 'finishing = NewOrFinishing(finishing, conf.Finishing)', 'finishing = conf.Finishing'))
M('run-sometimes', 'C11', (CTL, 'Running && !IsFinished(finishing, algo) {', 'Running && (duration > 0 && duration < time.Microsecond || !IsFinished(finishing, algo)) {'))
M('run-stale', 'C11', (CTL, '''	algo.receiveStatus()

	for err == nil''', '''	algo.receiveStatus()
	var model = NewSimpleOCModel(
		algo.conf, algo.space, algo.Status(), algo.RuntimeFigures(), algo.Centroids(),
	)

	for err == nil'''), (CTL, '!IsFinished(finishing, algo) {', '!IsFinished(finishing, model) {'))
M('run-early', 'C11', (CTL, '''			if err == nil {
				if centroids != nil {''', '''			if conf.Timeout > 0 && duration > conf.Timeout {
				return
			}
			if err == nil {
				if centroids != nil {'''))
M('run-late', 'C11', (CTL, '''					algo.modelMutex.Unlock()
				}
				// temp''', '''					algo.modelMutex.Unlock()
				} else {
					return
				}
				// temp'''))
M('cnt-it-err', 'C10', (CTL, '''			if err == nil {
				if centroids != nil {''', '''			if err == nil || centroids != nil {
				if centroids != nil {'''))
M('cnt-it-nil', 'C10', (CTL, '''				if centroids != nil { // an iteration has been executed
					algo.modelMutex.Lock()
					algo.iterations++
''', '''				algo.iterations++
				if centroids != nil { // an iteration has been executed
					algo.modelMutex.Lock()
'''))
M('cnt-it-two', 'C10', (CTL, 'algo.iterations++\n', 'algo.iterations += 1 + len(runtimeFigures)/1000\n'))
M('cnt-push-before', 'C10', (CTL, '''	err = algo.impl.Push(elemt, algo)
	if err == nil {
''', '''	algo.modelMutex.Lock()
	algo.pushedData++
	algo.modelMutex.Unlock()
	err = algo.impl.Push(elemt, algo)
	if err == nil {
'''), (CTL, '''		algo.pushedData++
		algo.lastDataTime = ''', '''		algo.lastDataTime = '''))
M('cnt-push-fig', 'C10', (CTL, '''		algo.updateRuntimeFigures()
		algo.modelMutex.Unlock()
		// try''', '''		if algo.newData == 0 {
			algo.updateRuntimeFigures()
		}
		algo.modelMutex.Unlock()
		// try'''))
M('cnt-reset-miss', 'C10', (CTL, '		algo.iterations = 0\n', ''))
M('cnt-reset-created', 'C10', (CTL, '''			algo.notifChannel = make(chan OCStatus)
''', '''			algo.notifChannel = make(chan OCStatus)
			algo.modelMutex.Lock()
			algo.pushedData = 0
			algo.updateRuntimeFigures()
			algo.modelMutex.Unlock()
'''))
M('cnt-own', 'C10', (CTL, '''	if runtimeFigures == nil {
		runtimeFigures = RuntimeFigures{}
	}
''', '''	if runtimeFigures == nil || len(runtimeFigures) < 2 {
		runtimeFigures = RuntimeFigures{}
	}
'''))
M('cnt-own-key', 'C10', (CTL, '	algo.runtimeFigures[LastDataTime] = float64(algo.lastDataTime)\n', '	algo.runtimeFigures[LastDataTime] = float64(algo.lastDataTime)\n	delete(algo.runtimeFigures, "acceptations")\n'))
M('cnt-lost', 'C10', (CTL, '''		algo.modelMutex.Lock()
		algo.pushedData++
''', '''		algo.modelMutex.RLock()
		var pushed = algo.pushedData
		algo.modelMutex.RUnlock()
		algo.modelMutex.Lock()
		algo.pushedData = pushed + 1
'''))
M('cnt-accessor', 'C10', ('core/model.go', 'for name, value := range algo.runtimeFigures {', 'for name, value := range algo.runtimeFigures {\n		if value < 0 {\n			continue\n		}'))
M('cnt-early', 'C10', (CTL, '''	runtimeFigures[Duration] = float64(algo.duration + duration)
	algo.centroids = centroids
	algo.runtimeFigures = runtimeFigures
	algo.updateRuntimeFigures()
''', '''	runtimeFigures[Duration] = float64(algo.duration + duration)
	algo.updateRuntimeFigures()
	algo.centroids = centroids
	algo.runtimeFigures = runtimeFigures
'''))
M('auto-ge', 'C31', (CTL, 'conf.DataPerIter <= algo.newData', 'conf.DataPerIter < algo.newData'))
M('auto-status', 'C31', (CTL, 'var ready = algo.Status().Value == Ready', 'var ready = algo.Status().Value >= Ready'), (CTL, '''	if algo.status.Value == Ready {
		algo.start()
	} else {''', '''	if algo.status.Value == Ready || algo.status.Value == Finished {
		algo.start()
	} else {'''))
M('auto-play', 'C31', (CTL, 'algo.playReady()\n', 'algo.Play()\n'))
M('auto-keep', 'C31', (CTL, '			algo.newData = 0\n', '			algo.newData -= conf.DataPerIter\n'))
M('auto-refused', 'C31', (CTL, '''	err = algo.impl.Push(elemt, algo)
	if err == nil {
''', '''	err = algo.impl.Push(elemt, algo)
	if err != nil {
		algo.modelMutex.Lock()
		algo.lastDataTime = time.Now().Unix()
		algo.modelMutex.Unlock()
	}
	if err == nil {
'''))
M('auto-notready', 'C31', (CTL, '''		} else {
			algo.newData++
		}
''', '''		} else if ready || conf.DataPerIter > 0 {
			algo.newData++
		}
'''))
M('auto-iterreset', 'C31', (CTL, 'algo.iterations++\n', 'algo.iterations++\n					algo.newData = 0\n'))

# ---- mcmc
MI='mcmc/impl.go'; MS='mcmc/store.go'; MSQ='mcmc/seq.go'; MPR='mcmc/par.go'
M('mc-nextk-low', 'C25', (MI, 'case newK < 1:\n		return 1', 'case newK < 0:\n		return 1'))
M('mc-nextk-data-order', 'C25', (MI, '	case newK > len(data):\n		return len(data)\n', ''))
M('mc-nextk-maxk', 'C25', (MI, 'case newK > conf.MaxK:', 'case newK > conf.MaxK+1:'))
M('mc-nextk-jump', 'C25', (MI, '[]int{-1, 0, 1}[i]', '[]int{-1, 0, 2}[i]'))
M('mc-fallback-k', 'C25', (MI, '''		k = current.k
		centers, _ = impl.store.GetCenters(data, space, k, centroids)
''', '''		k = len(centers)
'''))
M('mc-alter-skip', 'C25', (MI, '		result[i] = impl.distrib.Sample(c, time)', '''		if i == conf.MaxK-1 {
			result[i] = c
			continue
		}
		result[i] = impl.distrib.Sample(c, time)'''))
M('mc-alter-time', 'C25', (MI, 'centers = impl.alter(conf, space, centers, time)', 'centers = impl.alter(conf, space, centers, impl.time+1)'))
M('mc-store-key', 'C25', (MS, 'store.centers[len(clust)] = clust', 'store.centers[cap(clust)] = clust'))
M('mc-del-last', 'C25', (MS, '''		if i < del {''', '''		if i <= del {'''))
M('mc-del-fixed', 'C25', (MS, 'store.rgen.Intn(prevK)', 'store.rgen.Intn(prevK - 1)'))
M('mc-add-prev', 'C25', (MS, 'kmeans.PPIter(prev, data, space, store.rgen)', 'kmeans.PPIter(clust, data, space, store.rgen)'))
M('mc-get-cap', 'C25', (MS, '	if !ok {', '	if !ok || k == len(clust)+1 {'))
M('mc-strategy-once', 'C25', (MSQ, '''		result, _, _ = impl.Iterate(model)
''', '''		result, _, _ = impl.Iterate(model)
		if i > 0 {
			result = result[:len(result)-1]
		}
'''))
M('mc-acc-le', 'C26', (MI, 'impl.uniform.Rand() < rho', 'impl.uniform.Rand() > rho'))
M('mc-acc-sign', 'C26', (MI, '(current.loss - prop.loss)', '(prop.loss - current.loss)'))
M('mc-acc-init-sign', 'C26', (MI, 'impl.dim*(current.k-prop.k)', 'impl.dim*(prop.k-current.k)'))
M('mc-acc-rprop', 'C26', (MI, 'current.pdf - prop.pdf', 'prop.pdf - current.pdf'))
M('mc-acc-dim', 'C26', (MI, 'impl.dim+3', 'impl.dim+2'))
M('mc-acc-log', 'C26', (MI, 'math.Log(2 * conf.B)', 'math.Log(conf.B)'))
M('mc-acc-time', 'C26', (MI, 'float64(impl.dim+3)/float64(time)', 'float64(impl.dim+3)/float64(impl.time)'))
M('mc-rej-store', 'C26', (MI, '''		impl.store.SetCenters(centroids)
		impl.acc++
	}
''', '''		impl.acc++
	}
	impl.store.SetCenters(prop.centers)
'''))
M('mc-acc-store-old', 'C26', (MI, '''		centroids = prop.centers
		impl.store.SetCenters(centroids)
''', '''		impl.store.SetCenters(centroids)
		centroids = prop.centers
'''))
M('mc-acc-count', 'C26', (MI, '''		impl.acc++
	}
''', '''		if len(centroids) != conf.InitK {
			impl.acc++
		}
	}
'''))
M('mc-init-loss', 'C26', (MI, 'k:       mcmcConf.InitK,', 'k:       mcmcConf.MaxK,'))
M('mc-init-lossnorm', 'C26', (MSQ, 'proposal.TotalLoss(data, space, conf.Norm)', 'proposal.TotalLoss(data, space, 2)'))
M('mc-rej-loss', 'C26', (MI, '''	return current, centroids
}
''', '''	current.loss = prop.loss
	return current, centroids
}
'''))
M('mc-uniform-max', 'C26', (MSQ, 'Max: 1, Min: 0', 'Max: 2, Min: 0'))
M('mc-prop-loss-old', 'C26', (MI, '''		loss:    impl.strategy.Loss(conf, space, centers, data),
		pdf:     impl.proba(conf, space, centers, centers, time),
	}
}
''', '''		loss:    impl.strategy.Loss(conf, space, centroids, data),
		pdf:     impl.proba(conf, space, centers, centers, time),
	}
}
'''))
M('mc-prop-pdf-mu', 'C26', (MI, '''		loss:    impl.strategy.Loss(conf, space, centers, data),
		pdf:     impl.proba(conf, space, centers, centers, time),
	}
}
''', '''		loss:    impl.strategy.Loss(conf, space, centers, data),
		pdf:     impl.proba(conf, space, centers, current.centers, time),
	}
}
'''))

# ---- initializers
KI='kmeans/init.go'
M('ini-check-le', 'C24', (KI, 'len(elemts) < k', 'len(elemts) <= k'))
M('ini-check-k', 'C24', (KI, 'if k < 1 {', 'if k < 0 {'))
M('ini-given-nocopy', 'C24', (KI, 'centroids[i] = space.Copy(elemts[i])', 'centroids[i] = elemts[i]'))
M('ini-given-last', 'C24', (KI, 'centroids[i] = space.Copy(elemts[i])', 'centroids[i] = space.Copy(elemts[len(elemts)-1-i])'))
M('ini-pp-first', 'C24', (KI, 'src.Intn(len(elemts))\n		centroids[0]', 'src.Intn(k)\n		centroids[0]'))
M('ini-pp-all', 'C24', (KI, 'PPIter(centroids[:i], elemts', 'PPIter(centroids[:1], elemts'))
M('ini-pp-lost', 'C24', (KI, 'i < k && err == nil; i++', 'i < k; i++'))
M('ini-rand-dup', 'C24', (KI, '				chosen[choice] = i\n', '				chosen[i] = choice\n'))
M('ini-rand-half', 'C24', (KI, '			if !found {\n', '			if !found || i == 7 {\n'))
M('ini-rand-range', 'C24', (KI, 'var choice = src.Intn(len(elemts))', 'var choice = src.Intn(len(elemts)-1)'))
M('ini-step-square', 'C24', (KI, '	var draw, err = WeightedChoice(dists, src)', '	for i := range dists {\n		dists[i] += dists[i] * dists[i]\n	}\n	var draw, err = WeightedChoice(dists, src)'))
M('ini-step-noerr', 'C24', (KI, 'return space.Copy(elemts[draw]), err', 'if err == ErrNullSet {\n		return space.Copy(elemts[0]), nil\n	}\n	return space.Copy(elemts[draw]), err'))
M('ini-weight-le', 'C24', (KI, '		if weight > 0 {', '		if weight >= 0 {'))
M('ini-weight-nosub', 'C24', (KI, '			cursor -= weight\n', '			cursor -= weights[0]\n'))
M('ini-weight-null', 'C24', (KI, '	if sum == 0 {', '	if len(weights) == 0 {'))
M('ini-weight-one', 'C24', (KI, 'rand.Float64() * sum', 'rand.Float64()'))
M('ini-names', 'C24', (KI, '"rand":  RandInitializer', '"rand":  GivenInitializer'))

SI = 'streaming/impl.go'
M('st-cards-zero', 'C28', (SI, """	impl.clust = append(impl.clust, outlier)
	impl.cards = append(impl.cards, 1)
""", """	impl.clust = append(impl.clust, outlier)
	impl.cards = append(impl.cards, 0)
"""))
M('st-outlier-max', 'C28', (SI, """		impl.AddOutlier(elemt)
""", """		impl.AddCenter(elemt, distance)
"""))
M('st-after-gt', 'C28', (SI, "impl.count >= impl.conf.OutAfter", "impl.count > impl.conf.OutAfter"))
M('st-ratio-ge', 'C28', (SI, "relative > impl.conf.OutRatio", "relative >= impl.conf.OutRatio"))
M('st-threshold-le', 'C28', (SI, "if threshold < relative {", "if threshold <= relative {"))
M('st-count-outlier', 'C28', (SI, """			impl.UpdateCenter(label, elemt, distance, space)
		}
	}
	impl.count++
""", """			impl.UpdateCenter(label, elemt, distance, space)
		}
		impl.count++
	}
"""))
M('st-cards-miss', 'C28', (SI, """	impl.cards[label]++
""", ""))
M('st-weight-len', 'C28', (SI, "impl.cards[label], elemt, 1)", "impl.count, elemt, 1)"))
M('st-weight-after', 'C28', (SI, """	var cluster = space.Combine(impl.clust[label], impl.cards[label], elemt, 1)
	impl.clust[label] = cluster
	impl.cards[label]++
""", """	impl.cards[label]++
	var cluster = space.Combine(impl.clust[label], impl.cards[label], elemt, 1)
	impl.clust[label] = cluster
"""))
M('st-max-lower', 'C28', (SI, "	if distance > impl.maxDistance {", "	if distance < impl.maxDistance {"))
M('st-max-last', 'C28', (SI, "	if distance > impl.maxDistance {", "	if distance > impl.maxDistance/2 {"))
M('st-push-block', 'C28', (SI, """	select {
	case impl.c <- elemt:
	default:
		err = errors.New("buffer is full")
	}
""", """	impl.c <- elemt
"""))
M('st-push-lost', 'C28', (SI, """		err = errors.New("buffer is full")
	}""", """	}"""), (SI, """		err = errors.New("at least one element is needed")
""", """		err = errors.New("at least one element is needed")
"""))
M('st-iter-two', 'C28', (SI, """		impl.Process(elemt, model.Space())
""", """		impl.Process(elemt, model.Space())
		if impl.count%64 == 0 && len(impl.c) > 0 {
			<-impl.c
		}
"""))
M('st-iter-skip', 'C28', (SI, """		impl.Process(elemt, model.Space())
""", """		if impl.maxDistance >= 0 {
			impl.Process(elemt, model.Space())
			impl.Process(elemt, model.Space())
		}
"""))
M('st-iter-alias', 'C28', (SI, """		clust = make(core.Clust, len(impl.clust))
		copy(clust, impl.clust)
""", """		clust = impl.clust
"""))
M('st-iter-short', 'C28', (SI, "		copy(clust, impl.clust)\n", "		copy(clust, impl.clust[:len(impl.clust)-1])\n"))
M('st-init-card', 'C28', (SI, """			impl.AddCenter(clust[i], 0.)
""", """			impl.clust = append(impl.clust, clust[i])
			impl.cards = append(impl.cards, i)
"""))
M('st-buffer', 'C28', (SI, "make(chan core.Elemt, conf.BufferSize)", "make(chan core.Elemt, conf.BufferSize+len(elemts))"))
M('st-new-first', 'C28', (SI, """	for i := range elemts {
		c <- elemts[i]""", """	for i := range elemts {
		c <- elemts[len(elemts)-1-i]"""))
M('st-sigma', 'C28', (SI, """			Mu:    conf.Mu,
			Sigma: conf.Sigma,""", """			Mu:    conf.Sigma,
			Sigma: conf.Mu,"""))
M('st-src', 'C28', (SI, """			Src:   conf.RGen,
""", ""))
M('st-figure-old', 'C28', (SI, """	select {
	case elemt := <-impl.c:
		impl.Process""", """	runtimeFigures = impl.runtimeFigures()
	select {
	case elemt := <-impl.c:
		impl.Process"""), (SI, """	default:
	}
	runtimeFigures = impl.runtimeFigures()
	return
""", """	default:
	}
	return
"""))
M('st-first-max', 'C28', (SI, """	if impl.maxDistance == 0 {
		impl.maxDistance = distance
	}
	return distance / impl.maxDistance
""", """	if impl.maxDistance == 0 {
		return 1
	}
	return distance / impl.maxDistance
"""))
M('st-relative-after', 'C28', (SI, """	var relative = impl.GetRelativeDistance(distance)
""", """	impl.UpdateMaxDistance(distance)
	var relative = impl.GetRelativeDistance(distance)
"""))
M('st-label-last', 'C28', (SI, """	impl.clust[label] = cluster
""", """	impl.clust[len(impl.clust)-1-label] = cluster
"""))

TO, CT = 'core/timeout.go', 'core/ctrl.go'
M('wt-idle-missing', 'C12', (TO, "NewStatusFinishing(true, Ready, Idle, Finished)", "NewStatusFinishing(true, Ready, Finished)"))
M('wt-running', 'C12', (TO, "NewStatusFinishing(true, Ready, Idle, Finished)", "NewStatusFinishing(true, Ready, Idle, Finished, Running)"))
M('wt-zero', 'C12', (TO, "t.duration > 0 && time.Now()", "t.duration >= 0 && time.Now()"))
M('wt-before', 'C12', (TO, "time.Now().After(lastTime)", "time.Now().Before(lastTime)"))
M('wt-add', 'C12', (TO, "time.Now().Add(t.duration)\n", "time.Now().Add(2 * t.duration)\n"))
M('wt-error', 'C12', (TO, """	if err == nil {
		err = t.ocm.Status().Error
	}
	return
""", """	return
"""))
M('wt-error2', 'C12', (TO, """	if err == nil {
		err = t.ocm.Status().Error
	}
""", """	if status := t.ocm.Status(); err == nil || status.Error != nil {
		err = status.Error
	}
"""))
M('wt-never-timeout', 'C12', (CT, "timeout <= 0 && conf.Finishing == nil", "timeout == 0 && conf.Finishing == nil"))
M('wt-never-iter', 'C12', (CT, " && conf.Iter == 0 && conf.IterPerData == 0\n", " && conf.Iter == 0\n"))
M('wt-never-fin', 'C12', (CT, "timeout <= 0 && conf.Finishing == nil && ", "timeout <= 0 && "))
M('wt-idle-wait', 'C12', (CT, """	case Idle:
		err = ErrIdle
	case Ready:
		fallthrough
	case Finished:
	default:
""", """	case Ready:
		fallthrough
	case Idle, Finished:
	default:
"""))
M('wt-args', 'C12', (CT, "err = WaitTimeout(finishing, timeout, algo)", "err = WaitTimeout(finishing, algo.Conf().Ctrl().Timeout, algo)"))
M('wt-timer-disabled', 'C12', (TO, """		duration:     duration,
		enabled:      true,
""", """		duration:     duration,
		enabled:      duration > time.Second,
"""))
M('wt-timer-inverse', 'C12', (TO, "	if t.Enabled() {\n", "	if !t.Enabled() {\n"))
M('wt-timer-nil', 'C12', (TO, "t.interruption(ErrTimeout)", "t.interruption(nil)"))
M('wt-timer-nosleep', 'C12', (TO, "	time.Sleep(t.duration)\n", "	time.Sleep(t.duration / 2)\n"))
M('wt-disable-noop', 'C12', (TO, """	defer t.mutex.Unlock()
	t.enabled = false
""", """	defer t.mutex.Unlock()
	if t.finishing != nil {
		t.enabled = false
	}
"""))
M('wt-arm-negative', 'C12', (CT, "	if interruptionTimeout > 0 {", "	if interruptionTimeout > time.Second {"))
M('wt-arm-unkept', 'C12', (CT, """		algo.timeout = timeout
	}
	go algo.run(algo.timeout)
""", """	}
	go algo.run(algo.timeout)
"""))
M('wt-recheck', 'C12', (CT, "return algo.interrupt(err, func() bool { return timeout.Enabled() })", "return algo.interrupt(err, func() bool { return true })"))
M('wt-recheck-current', 'C12', (CT, "func() bool { return timeout.Enabled() })", "func() bool { return algo.timeout.Enabled() })"))
M('wt-previous', 'C12', (CT, """	if algo.timeout != nil {
		algo.timeout.Disable()
		algo.timeout = nil
	}
	var inter""", """	if algo.timeout != nil {
		algo.timeout = nil
	}
	var inter"""))
M('wt-end', 'C12', (CT, """	if timeout != nil {
		timeout.Disable()
	}
	if err != nil {""", """	if timeout != nil && err != nil {
		timeout.Disable()
	}
	if err != nil {"""))
M('wt-pause-disable', 'C12', (CT, """		if !algo.sendStatus(NewOCStatus(Idle)) {
			err = ErrNotRunning
		}
""", """		if !algo.sendStatus(NewOCStatus(Idle)) {
			err = ErrNotRunning
		} else if algo.timeout != nil {
			algo.timeout.Disable()
		}
"""))
M('wt-enabled-order', 'C12', (CT, """	algo.ctrlMutex.Lock()
	defer algo.ctrlMutex.Unlock()
	algo.statusMutex.Lock()
	if !enabled() {
		algo.statusMutex.Unlock()
		return
	}
""", """	if !enabled() {
		return
	}
	algo.ctrlMutex.Lock()
	defer algo.ctrlMutex.Unlock()
	algo.statusMutex.Lock()
"""))
M('wt-interrupt-idle', 'C12', (CT, """	case Idle:
		fallthrough
	case Running:
		algo.statusMutex.Unlock()
		algo.sendStatus(NewOCStatusError(interruption))
""", """	case Idle:
		if interruption != nil {
			algo.statusMutex.Unlock()
			return ErrNotRunning
		}
		fallthrough
	case Running:
		algo.statusMutex.Unlock()
		algo.sendStatus(NewOCStatusError(interruption))
"""))
UT, KIM, MIM = 'core/util.go', 'kmeans/impl.go', 'mcmc/impl.go'
def F(name, *e): M('fl-' + name, 'C09', *e)
F('par-escape', (UT, "		defer func() { panics[rank] = recover() }()\n", ""))
F('par-swallow', (UT, "panics[rank] = recover()", "recover()"))
F('par-lost', (UT, "		if reason != nil {\n			panic(reason)", "		if reason == nil {\n			break"),)
F('par-first', (UT, "	for _, reason := range panics {", "	for _, reason := range panics[:1] {"))
F('par-rank', (UT, "panics[rank] = recover()", "panics[0] = recover()"))
F('par-msg', (UT, "			panic(reason)", "			panic(\"a worker panicked\")"))
F('par-norange', (UT, "	for _, reason := range panics {\n		if reason != nil {", "	for i, reason := range panics {\n		if reason != nil && i > 0 {"))
F('init-panic', (CT, """	defer func() {
		if recovery := recover(); recovery != nil {
			err = fmt.Errorf("%v", recovery)
		}
	}()
	return algo.impl.Init(algo)""", """	_ = fmt.Errorf
	return algo.impl.Init(algo)"""))
F('init-swallow', (CT, """			err = fmt.Errorf("%v", recovery)
		}
	}()
	return algo.impl.Init(algo)""", """			centroids = Clust{}
		}
	}()
	return algo.impl.Init(algo)"""))
F('init-noreason', (CT, """			err = fmt.Errorf("%v", recovery)
		}
	}()
	return algo.impl.Init(algo)""", """			err = fmt.Errorf("initialization failed")
		}
	}()
	return algo.impl.Init(algo)"""))
F('init-status', (CT, "		} else {\n			algo.setStatus(NewOCStatusError(err), false)\n		}\n	default:", "		} else {\n			algo.setStatus(NewOCStatus(Finished), false)\n		}\n	default:"))
F('init-cent', (CT, "		if err == nil {\n			algo.modelMutex.Lock()\n			algo.centroids = centroids", "		if err == nil || len(centroids) > 0 {\n			algo.modelMutex.Lock()\n			algo.centroids = centroids"))
F('play-go', (CT, """		if err != nil {
			algo.statusMutex.Unlock()
			return
		}
		fallthrough""", """		fallthrough"""))
F('play-swallow', (CT, """		if err != nil {
			algo.statusMutex.Unlock()
			return
		}
		fallthrough""", """		if err != nil {
			algo.statusMutex.Unlock()
			return nil
		}
		fallthrough"""))
F('run-norecover', (CT, """		if recovery := recover(); recovery != nil {
			err = fmt.Errorf("%v", recovery)
		}
		algo.terminate(""", """		algo.terminate("""))
F('run-swallow', (CT, """			err = fmt.Errorf("%v", recovery)
		}
		algo.terminate(""", """			_ = fmt.Errorf("%v", recovery)
		}
		algo.terminate("""))
F('run-onlyerr', (CT, """		if recovery := recover(); recovery != nil {
			err = fmt.Errorf("%v", recovery)
		}
		algo.terminate(""", """		if recovery, ok := recover().(error); ok {
			err = recovery
		}
		algo.terminate("""))
F('run-loop', (CT, "	for err == nil && algo.Status().Value", "	for algo.Status().Value"))
F('run-term', (CT, "	if err != nil {\n		algo.setStatus(NewOCStatusError(err), false)\n	} else if", "	if err != nil {\n		algo.setStatus(NewOCStatus(Finished), false)\n	} else if"))
F('run-override', (CT, "		if err == nil && status.Value == Finished {", "		if status.Value == Finished {"))
F('run-idle', (CT, "	if err != nil {\n		algo.setStatus(NewOCStatusError(err), false)\n	} else if", "	if err != nil && algo.status.Value != Idle && algo.iterations > 0 {\n		algo.setStatus(NewOCStatusError(err), false)\n	} else if"))
F('push', (CT, "	err = algo.impl.Push(elemt, algo)\n	if err == nil {", "	err = algo.impl.Push(elemt, algo)\n	if err != nil && algo.Status().Value == Finished {\n		err = nil\n	} else if err == nil {"))
F('copy', (CT, "	if err == nil {\n		oc = NewAlgo(conf, impl, space)\n	}\n	return\n}", "	if err == nil {\n		oc = NewAlgo(conf, impl, space)\n	}\n	return oc, nil\n}"))
F('batch', (CT, "		if err == nil { // the run may have failed before the wait\n			err = algo.Status().Error\n		}\n", ""))
F('wait', (TO, "	if err == nil {\n		err = t.ocm.Status().Error\n	}\n	return", "	return"))
F('kmeans-init', (KIM, "	return impl.initializer(", "	clust, err = impl.initializer(kmeansConf.K, impl.buffer.Data(), model.Space(), kmeansConf.RGen)\n	if clust != nil {\n		return clust, nil\n	}\n	return impl.initializer("))
F('recover-iter', (MIM, "func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures core.RuntimeFigures, err error) {\n", "func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures core.RuntimeFigures, err error) {\n	defer func() { recover() }()\n"))
AL, SIM, BU = 'core/algo.go', 'streaming/impl.go', 'core/buffer.go'
def P(name, *e): M('cp-' + name, 'C30', *e)
P('model', (CT, "	impl, err := algo.impl.Copy(model)", "	_ = model\n	impl, err := algo.impl.Copy(algo)"))
P('model-space', (CT, "NewSimpleOCModel(conf, space, algo.Status(), algo.RuntimeFigures(), algo.Centroids())\n	impl, err", "NewSimpleOCModel(conf, algo.Space(), algo.Status(), algo.RuntimeFigures(), algo.Centroids())\n	impl, err"))
P('conf', (CT, "		oc = NewAlgo(conf, impl, space)", "		oc = NewAlgo(algo.conf, impl, space)"))
P('space', (CT, "		oc = NewAlgo(conf, impl, space)", "		oc = NewAlgo(conf, impl, algo.space)"))
P('impl', (CT, "		oc = NewAlgo(conf, impl, space)", "		_ = impl\n		oc = NewAlgo(conf, algo.impl, space)"))
P('status', (CT, "		oc = NewAlgo(conf, impl, space)", "		var created = NewAlgo(conf, impl, space)\n		created.status = algo.status\n		oc = created"))
P('centroids', (CT, "		oc = NewAlgo(conf, impl, space)", "		var created = NewAlgo(conf, impl, space)\n		created.centroids = algo.centroids\n		oc = created"))
P('figures', (CT, "		oc = NewAlgo(conf, impl, space)", "		var created = NewAlgo(conf, impl, space)\n		created.runtimeFigures = algo.runtimeFigures\n		oc = created"))
P('ready', (AL, "		status:         OCStatus{Value: Created},", "		status:         OCStatus{Value: Ready},"))
P('global-chan', (AL, "		statusChannel:  make(chan OCStatus),", "		statusChannel:  shared,"), (AL, "// NewAlgo creates", "var shared = make(chan OCStatus)\n\n// NewAlgo creates"))
P('pushed', (AL, "		runtimeFigures: RuntimeFigures{},\n	}", "		runtimeFigures: RuntimeFigures{},\n		pushedData:     int(conf.Ctrl().DataPerIter),\n	}"))
P('kmeans-buffer', (KIM, "	return algo.Impl(), nil", "	var copied = algo.Impl().(*Impl)\n	copied.buffer = impl.buffer\n	return copied, nil"))
P('kmeans-self', (KIM, "	var newConf = model.Conf().(*Conf)\n	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer)\n	return algo.Impl(), nil", "	return impl, nil"))
P('kmeans-shallow', (KIM, "	var newConf = model.Conf().(*Conf)\n	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer)\n	return algo.Impl(), nil", "	var copied = *impl\n	return &copied, nil"))
P('kmeans-nodata', (KIM, "model.Space(), impl.buffer.Data(), impl.initializer)\n	return algo", "model.Space(), model.Centroids(), impl.initializer)\n	return algo"))
P('kmeans-init', (KIM, "impl.buffer.Data(), impl.initializer)\n	return algo", "impl.buffer.Data(), PPInitializer)\n	return algo"))
P('kmeans-frame', ('kmeans/seq.go', "core.NewDataBuffer(data, conf.FrameSize)", "core.NewDataBuffer(data, len(data))"))
P('buffer-alias', (BU, "		db.data = make([]Elemt, len(data))\n		copy(db.data, data)", "		db.data = data"))
P('mcmc-store', (MIM, "	return algo.Impl(), nil", "	var copied = algo.Impl().(*Impl)\n	copied.store = impl.store\n	return copied, nil"))
P('mcmc-current', (MIM, "	return algo.Impl(), nil", "	var copied = algo.Impl().(*Impl)\n	copied.current = impl.current\n	return copied, nil"))
P('mcmc-distrib', (MIM, "impl.initializer, impl.distrib)\n	return algo", "impl.initializer, NewDirac())\n	return algo"))
P('mcmc-conf', (MIM, "	var algo = NewAlgo(*newConf, model", "	newConf = &Conf{InitK: newConf.InitK, CtrlConf: newConf.CtrlConf}\n	var algo = NewAlgo(*newConf, model"))
P('str-conf', (SIM, "	var algo = NewAlgo(*conf, model", "	conf = &impl.conf\n	var algo = NewAlgo(*conf, model"))
P('str-chan', (SIM, "	return algo.Impl(), nil", "	var copied = algo.Impl().(*Impl)\n	copied.c = impl.c\n	return copied, nil"))
P('str-cards', (SIM, "	return algo.Impl(), nil", "	var copied = algo.Impl().(*Impl)\n	copied.cards = impl.cards\n	return copied, nil"))
P('str-part', (SIM, "	for i := range elemts {\n		c <- elemts[i]\n	}", "	for i := range elemts {\n		if i < 50 {\n			c <- elemts[i]\n		}\n	}"))
P('wire-space', ('mcmc/algo.go', "	return core.NewAlgo(&conf, impl, space)", "	if ts, ok := data[0].(core.Space); ok && len(data) > 0 {\n		space = ts\n	}\n	return core.NewAlgo(&conf, impl, space)"))
P('wire-conf', ('mcmc/algo.go', "	conf.Verify()\n", "	conf.Verify()\n	conf.MaxK = len(data)\n"))

LD, MV = 'mcmc/latedistrib.go', 'mcmc/multivt.go'
def D(n, *e):
    M('ds-' + n, 'C27', *e)
BODY = """	d.mu.Lock()
	defer d.mu.Unlock()
	if !d.initialized {
		d.distrib = d.initializer(elemt)
		d.initialized = true
	}
"""
D('double', (LD, BODY, "	if d.initialized {\n		return\n	}\n" + BODY))
D('nolock', (LD, "	d.mu.Lock()\n	defer d.mu.Unlock()\n", ""))
D('late-lock', (LD, BODY, """	if !d.initialized {
		d.mu.Lock()
		defer d.mu.Unlock()
		d.distrib = d.initializer(elemt)
		d.initialized = true
	}
"""))
D('early-unlock', (LD, BODY, """	d.mu.Lock()
	var done = d.initialized
	d.mu.Unlock()
	if !done {
		var built = d.initializer(elemt)
		d.mu.Lock()
		d.distrib = built
		d.initialized = true
		d.mu.Unlock()
	}
"""))
D('flag-first', (LD, """		d.distrib = d.initializer(elemt)
		d.initialized = true
""", """		d.initialized = true
		d.distrib = d.initializer(elemt)
"""))
D('no-defer', (LD, BODY, """	d.mu.Lock()
	if !d.initialized {
		d.distrib = d.initializer(elemt)
		d.initialized = true
	}
	d.mu.Unlock()
"""))
D('never-flag', (LD, "		d.initialized = true\n", ""))
D('nil-flag', (LD, "	if !d.initialized {\n", "	if d.distrib == nil {\n"))
D('pdf-swap', (LD, "	return d.distrib.Pdf(x, mu, time)", "	return d.distrib.Pdf(mu, x, time)"))
D('pdf-noinit', (LD, "	d.tryInitialize(mu)\n	return d.distrib.Pdf(x, mu, time)", "	if x == nil {\n		d.tryInitialize(mu)\n	}\n	return d.distrib.Pdf(x, mu, time)"))
D('sample-time', (LD, "	return d.distrib.Sample(mu, time)", "	if time < 1 {\n		time = 1\n	}\n	return d.distrib.Sample(mu, time)"))
D('first-direct', (LD, "	d.tryInitialize(mu)\n	return d.distrib.Sample(mu, time)", "	if time == 0 {\n		return d.initializer(mu).Sample(mu, time)\n	}\n	d.tryInitialize(mu)\n	return d.distrib.Sample(mu, time)"))
D('read-before', (LD, "	d.tryInitialize(mu)\n	return d.distrib.Sample(mu, time)", "	if ds := d.distrib; ds != nil {\n		return ds.Sample(mu, time)\n	}\n	d.tryInitialize(mu)\n	return d.distrib.Sample(mu, time)"))
D('dirac-copy', ('mcmc/dirac.go', "	return mu\n", "	if v, ok := mu.([]float64); ok && len(v) > 8 {\n		return v[:8]\n	}\n	return mu\n"))
D('dirac-time', ('mcmc/dirac.go', "	return 1\n", "	if time > 1000 {\n		return 0\n	}\n	return 1\n"))
D('chi-k', (MV, "K: m.Nu, Src", "K: m.Nu + 1, Src"))
D('chi-conf', (MV, "math.Sqrt(m.chi2.K / m.chi2.Rand())", "math.Sqrt(3 / m.chi2.Rand())"))
D('power', (MV, "(float64(m.Dim) + m.Nu) / 2.", "(float64(m.Dim) + 3) / 2."))
D('power2', (MV, "(float64(m.Dim) + m.Nu) / 2.", "float64((m.Dim + int(m.Nu)) / 2)"))
D('gamma', (MV, "math.Gamma(float64(m.Nu)/2.)", "math.Gamma(1.5)"))
D('sigma', (MV, "		s[i] = 1\n", "		s[i] = 1\n		if i > 100 {\n			s[i] = 0.5\n		}\n"))
D('mean', (MV, "		mu[i] = 0.\n", "		mu[i] = float64(i / 50)\n"))
D('pi-dim', (MV, "float64(m.Dim)/2.\n	return", "float64(3)/2.\n	return"))
D('scale-nu', (MV, "	var scale = m.Nu / math.Sqrt(float64(time*20))", "	var scale = 3 / math.Sqrt(float64(time*20))"))
D('scale-time', (MV, "	var scale = m.Nu / math.Sqrt(float64(time*20))", "	var scale = m.Nu / math.Sqrt(float64(8*20))"))
D('sample-scale', (MV, "	var scale = 1 / math.Sqrt(float64(time*20))", "	var scale = 1 / math.Sqrt(float64(time*10))"))
D('sample-dim', (MV, "student[i]*chiInverse*scale", "student[i]*chiInverse*scale/float64(1+i/64)"))
D('sample-mu', (MV, "	for i := range student {\n", "	for i := range student {\n		if i >= 16 {\n			break\n		}\n"))
D('sample-chi', (MV, "	var chiInverse = math.Sqrt(m.chi2.K / m.chi2.Rand())\n", ""), (MV, "student[i]*chiInverse*scale", "student[i]*math.Sqrt(m.chi2.K/m.chi2.Rand())*scale"))
D('nu-default', (MV, "	if conf.Nu == 0 {", "	if conf.Nu < 3 {"))

def G(n, *e):
    M('rn-' + n, 'C29', *e)
KI = 'kmeans/init.go'
G('global', (KI, "func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {", "func WeightedChoice(weights []float64, _ *rand.Rand) (int, error) {"))
G('nosrc', ('mcmc/seq.go', "distuv.Uniform{Max: 1, Min: 0, Src: conf.RGen}", "distuv.Uniform{Max: 1, Min: 0}"))
G('nosrc2', ('streaming/impl.go', "			Src:   conf.RGen,\n", ""))
G('nosrc3', (MV, "K: m.Nu, Src: m.RGen}", "K: m.Nu}"))
G('nilsrc', (MV, "NewNormal(mu, sigma, m.RGen)", "NewNormal(mu, sigma, nil)"))
G('confsrc', (MV, "NewNormal(mu, sigma, m.RGen)", "NewNormal(mu, sigma, rand.NewSource(uint64(conf.Dim)))"))
G('always', ('mcmc/conf.go', "	if conf.RGen == nil {\n", "	if conf.RGen == nil || conf.FrameSize > 0 {\n"))
G('replace', ('kmeans/conf.go', "	if conf.NumCPU == 0 {\n", "	if conf.Par && conf.NumCPU == 1 {\n		conf.RGen = rand.New(rand.NewSource(1))\n	}\n	if conf.NumCPU == 0 {\n"))
G('store', ('mcmc/seq.go', "NewCenterStore(conf.RGen)", "NewCenterStore(rand.New(rand.NewSource(1)))"), ('mcmc/seq.go', '	"gonum.org/v1/gonum/stat/distuv"', '	"golang.org/x/exp/rand"\n	"gonum.org/v1/gonum/stat/distuv"'))
G('derived', ('streaming/impl.go', "Src:   conf.RGen,", "Src:   rand.NewSource(conf.RGen.Uint64()),"), ('streaming/impl.go', '	"gonum.org/v1/gonum/stat/distuv"', '	"golang.org/x/exp/rand"\n	"gonum.org/v1/gonum/stat/distuv"'))
G('drop', ('mcmc/algo.go', "	conf.Verify()\n", "	if conf.Par {\n		conf.RGen = nil\n	}\n	conf.Verify()\n"))
G('time-len', ('mcmc/impl.go', "	return len(data)\n}\n\n// Push", "	return len(data) + int(time.Now().Unix()%2)\n}\n\n// Push"), ('mcmc/impl.go', '	"math"\n', '	"math"\n	"time"\n'))
G('time-decide', ('streaming/impl.go', "	case centroids := <-impl.c:\n", "	case centroids := <-impl.c:\n		if time.Now().Nanosecond() == 0 {\n			centroids = <-impl.c\n		}\n"), ('streaming/impl.go', '	"gonum.org/v1/gonum/stat/distuv"', '	"time"\n	"gonum.org/v1/gonum/stat/distuv"'))
G('strategy', ('mcmc/seq.go', "	return proposal.TotalLoss(data, space, conf.Norm)", "	var c = kmeans.Conf{K: len(proposal)}\n	core.PrepareConf(&c)\n	if _, err := kmeans.WeightedChoice([]float64{1, 2}, c.RGen); err == nil {\n		return 0\n	}\n	return proposal.TotalLoss(data, space, conf.Norm)"))
G('perm', (KI, "	var _, dists = clust.ParMapLabel(elemts, space, runtime.NumCPU())", "	var _, dists = clust.ParMapLabel(elemts, space, runtime.NumCPU())\n	if runtime.NumCPU() > 4 {\n		dists[0] *= 1\n	}"))
G('maporder', ('mcmc/store.go', "	if !ok {\n", "	if !ok {\n		for _, c := range store.centers {\n			if len(c) == k+1 || len(c) == k-1 {\n				clust = c\n				break\n			}\n		}\n"))
G('mapsum', ('mcmc/impl.go', "	return p\n}", "	var m = map[int]float64{0: p, 1: 0}\n	p = 0\n	for _, v := range m {\n		p += v\n	}\n	return p\n}"))
G('newkm', ('mcmc/par.go', "	return centroids.ParTotalLoss(data, space, conf.Norm, strategy.Degree)", "	var d = distuv.Uniform{Max: 1}\n	return centroids.ParTotalLoss(data, space, conf.Norm, strategy.Degree) + 0*d.Mean()"), ('mcmc/par.go', '	"github.com/wearelumenai/distclus/kmeans"\n', '	"github.com/wearelumenai/distclus/kmeans"\n	"gonum.org/v1/gonum/stat/distuv"\n'))
G('math-rand', ('kmeans/init.go', "	var cursor = rand.Float64() * sum", "	var cursor = mrand.Float64() * sum"), (KI, '	"runtime"\n', '	mrand "math/rand"\n	"runtime"\n'), (KI, "rand *rand.Rand) (int", "_ *rand.Rand) (int"))
G('pid', ('kmeans/conf.go', "		var seed = uint64(time.Now().UTC().Unix())\n", "		var seed = uint64(os.Getpid())\n"), ('kmeans/conf.go', '	"time"\n', '	"os"\n'))
G('global-gen', ('kmeans/impl.go', "model.Space(), kmeansConf.RGen)", "model.Space(), shared)"), ('kmeans/impl.go', "// Strategy", "var shared = rand.New(rand.NewSource(1))\n\n// Strategy"), ('kmeans/impl.go', '	"github.com/wearelumenai/distclus/core"\n', '	"github.com/wearelumenai/distclus/core"\n	"golang.org/x/exp/rand"\n'))

def T(n, *e):
    M('dt-' + n, 'C22', *e)
CO = 'dtw/cost.go'
T('window-init', (CO, """		cumCost.window = longest
		if shortest > longest {
			cumCost.window = shortest
		}
""", "		cumCost.window = longest\n"))
T('window-short', (CO, """		cumCost.window = longest
		if shortest > longest {
			cumCost.window = shortest
		}
""", "		cumCost.window = shortest\n"))
T('maxwin', (CO, "2*cumCost.window + 1", "2 * cumCost.window"))
T('maxwin-big', (CO, "	if maxWindow < longest {\n		cumCost.stride1 = maxWindow\n	} else {\n		cumCost.stride1 = longest\n	}", "	if maxWindow < longest {\n		cumCost.stride1 = maxWindow\n	} else {\n		cumCost.stride1 = shortest\n	}"))
T('ravel', (CO, "	if i > cumCost.window {\n", "	if i > cumCost.window+1 {\n"))
T('ravel-shift', (CO, "j-i+cumCost.window)", "j-i+cumCost.window+1)"))
T('inwin-strict', (CO, "	return i-j <= cumCost.window && j-i <= cumCost.window\n", "	return i-j <= cumCost.window && j-i < cumCost.window\n"))
T('inwin-one', (CO, "	return i-j <= cumCost.window && j-i <= cumCost.window\n", "	return i-j <= cumCost.window\n"))
T('inwin-wide', (CO, "	return i-j <= cumCost.window && j-i <= cumCost.window\n", "	return i-j <= cumCost.window && j-i <= cumCost.window+1\n"))
T('bound-l', (CO, "			i2l = i1 - cumCost.window\n", "			i2l = i1 - cumCost.window + 1\n"))
T('bound-r', (CO, "			i2r = i1 + cumCost.window\n", "			i2r = i1 + cumCost.window - 1\n"))
T('bound-strict', (CO, "i2 <= i2r; i2++", "i2 < i2r; i2++"))
T('get-zero', (CO, "		return math.Inf(1)\n", "		return math.MaxFloat64\n"))
T('get-neg', (CO, "		return math.Inf(1)\n", "		return math.Inf(-1)\n"))
T('top-border', (CO, "				cost = cumCost.Get(i1, i2-1) + dist\n", "				cost = dist\n"))
T('left-border', (CO, "				cost = cumCost.Get(i1-1, i2) + dist\n", "				cost = cumCost.Get(0, 0) + dist\n"))
T('min-first', (CO, "	case v1 <= v2 && v1 <= v3:\n", "	case v1 <= v2 || v1 <= v3:\n"))
T('min-second', (CO, "	case v2 <= v3:\n		return v2\n", "	case v2 >= v3:\n		return v2\n"))
T('min-two', (CO, "cost = min(ul, u, l) + dist", "_ = u\n				cost = min(ul, ul, l) + dist"))
T('neigh', (CO, "	var ul = cumCost.Get(i1-1, i2-1)\n", "	var ul = cumCost.Get(i1-1, i2)\n"))
T('neigh2', (CO, "	var u = cumCost.Get(i1, i2-1)\n", "	var u = cumCost.Get(i1-1, i2-1)\n"))
T('dist-same', (CO, "space.PointDist(cumCost.s1[i1], cumCost.s2[i2])", "space.PointDist(cumCost.s1[i1], cumCost.s2[i1%len(cumCost.s2)])"))
T('dist-twice', (CO, "cost = min(ul, u, l) + dist", "cost = min(ul+dist, u, l) + dist"))
T('path-swap', (CO, "	case l <= u:\n		return i1 - 1, i2\n	default:\n		return i1, i2 - 1\n", "	case l <= u:\n		return i1, i2 - 1\n	default:\n		return i1 - 1, i2\n"))
T('path-args', (CO, "decrPath(ul, u, l, i1, i2)", "decrPath(ul, l, u, i1, i2)"))
T('path-or', (CO, "	case ul <= u && ul <= l:\n", "	case ul <= u || ul <= l:\n"))
T('path-and', (CO, "	for i1 > 0 || i2 > 0 {\n", "	for i1 > 0 && i2 > 0 {\n"))
T('path-late', (CO, "		cumCost.path = append(cumCost.path, Ends{i1, i2})\n", ""), (CO, "			i1, i2 = decrPath(ul, u, l, i1, i2)\n		}\n", "			i1, i2 = decrPath(ul, u, l, i1, i2)\n		}\n		cumCost.path = append(cumCost.path, Ends{i1, i2})\n"))
T('path-noorigin', (CO, "	cumCost.path = append(cumCost.path, Ends{0, 0})\n", ""))
T('path-border', (CO, "		case i1 == 0:\n			i2--\n", "		case i1 == 0:\n			i2 = 0\n"))
T('rows-skip', (CO, "		for i2 := i2l; i2 <= i2r; i2++ {\n", "		if i1 > 0 && i1 == cumCost.window*3 {\n			continue\n		}\n		for i2 := i2l; i2 <= i2r; i2++ {\n"))
T('space-window', ('dtw/series.go', "	var dtw = NewDTWWindow(s1, s2, space.innerSpace, space.window)\n	return dtw.Dist()", "	var dtw = NewDTWWindow(s1, s2, space.innerSpace, 0)\n	return dtw.Dist()"))
T('space-noshrink', ('dtw/series.go', "	var s1, s2 = space.getSeries(elemt1, elemt2)\n	var dtw = NewDTWWindow(s1, s2, space.innerSpace, space.window)\n	return dtw.Dist()", "	var s1, s2 = elemt1.([][]float64), elemt2.([][]float64)\n	var dtw = NewDTWWindow(s1, s2, space.innerSpace, space.window)\n	return dtw.Dist()"))
T('space-norm', ('dtw/series.go', "	return dtw.Dist()", "	return dtw.Dist() / float64(len(dtw.Path()))"))
T('last', ('dtw/dtw.go', "cost.Get(len(s1)-1, len(s2)-1)", "cost.Get(len(s1)-1, len(s1)-1)"))
T('last-first', ('dtw/dtw.go', "cost.Get(len(s1)-1, len(s2)-1)", "cost.Get(cost.Path()[0].End0, 0)"))
T('get-cache', (CO, "	var i = cumCost.ravel(i1, i2)\n	return cumCost.values[i]\n", "	var i = cumCost.ravel(i1, i2)\n	var v = cumCost.values[i]\n	cumCost.values[i] = v + 1\n	return v\n"))
T('stored-late', (CO, "			cumCost.values[i] = cost\n", "			if cost > 0 {\n				cumCost.values[i] = cost\n			}\n"))

def A(n, *e):
    M('av-' + n, 'C23', *e)
IN = 'dtw/interpolate.go'
DT = 'dtw/dtw.go'
A('order', (DT, "dtw.path[len(dtw.path)-1-i]", "dtw.path[i]"))
A('weights', (DT, "PointCombine(dtw.s1[ends.End0], w1, dtw.s2[ends.End1], w2)", "PointCombine(dtw.s1[ends.End0], w2, dtw.s2[ends.End1], w1)"))
A('ends', (DT, "idx[i] = ends.End0*w1 + ends.End1*w2", "idx[i] = ends.End0*w2 + ends.End1*w1"))
A('pos', (DT, "idx[i] = ends.End0*w1 + ends.End1*w2", "idx[i] = (ends.End0 + ends.End1) * (w1 + w2) / 2"))
A('factor', (DT, "dba, idx, w1+w2)", "dba, idx, w1)"))
A('factor2', (DT, "	return dtw.interpolate(dba, idx, w1+w2)\n", "	if w1+w2 > 1000 {\n		return dtw.interpolate(dba, idx, 2*w1)\n	}\n	return dtw.interpolate(dba, idx, w1+w2)\n"))
A('points', (DT, "dtw.s2[ends.End1], w2)\n", "dtw.s2[ends.End0%len(dtw.s2)], w2)\n"))
A('last', (IN, "idx[len(s)-1]/shrinkFactor + 1", "(idx[len(s)-1] + shrinkFactor - 1) / shrinkFactor"))
A('last2', (IN, "idx[len(s)-1]/shrinkFactor + 1", "idx[len(s)-1]/shrinkFactor + 1 - len(s)/64"))
A('first', (IN, "	result[0] = s[0]\n", "	result[0] = s[len(s)/50]\n"))
A('ge', (IN, "		for ; x > idx[j]; j++ {\n", "		for ; x >= idx[j]; j++ {\n"))
A('if', (IN, "		if idx[j] == x {\n", "		if idx[j] >= x && j == len(s)-1 {\n"))
A('inter', (IN, "space.PointCombine(s[j-1], idx[j]-x, s[j], x-idx[j-1])", "space.PointCombine(s[j-1], x-idx[j-1], s[j], idx[j]-x)"))
A('inter2', (IN, "space.PointCombine(s[j-1], idx[j]-x, s[j], x-idx[j-1])", "space.PointCombine(s[j-1], 1, s[j], 1)"))
A('near', (IN, "		if idx[j] == x {\n", "		if idx[j]-x < shrinkFactor/8 {\n"))
A('step', (IN, "		for ; x > idx[j]; j++ {\n", "		if j > 40 {\n			j++\n		}\n		for ; x > idx[j]; j++ {\n"))
A('resize', (IN, "idx[i] = i * (size - 1)", "idx[i] = i * size"))
A('resize2', (IN, "Interpolate(s, idx, len(s)-1, space)", "Interpolate(s, idx, len(s), space)"))
A('shrink', (IN, "	case window > 0 && l1 > l2+window:\n", "	case window > 0 && l1 > l2+window+1:\n"))
A('shrink2', (IN, "sl1 = Resize(s1, l2+window, space)", "sl1 = Resize(s1, l2, space)"))
A('shrink3', (IN, "sl2 = Resize(s2, l1+window, space)", "sl2 = Resize(s2, l1+1, space)"))
A('shrink4', (IN, "	case window > 0 && l2 > l1+window:\n", "	case window > 1 && l2 > l1+window:\n"))
A('shrink5', (IN, "	case window > 0 && l2 > l1+window:\n", "	case window > 0 && l2 > 2*l1+window:\n"))
A('unbounded', (IN, "	case window > 0 && l1 > l2+window:\n", "	case window > 0 && l1 > l2+window, l1 > 100*l2:\n"))
A('combine', ('dtw/series.go', "	return dtw.DBA(weight1, weight2)", "	if weight1 > weight2 {\n		return dtw.DBA(weight1, weight2)\n	}\n	return dtw.DBA(weight2, weight1)"))
A('combine2', ('dtw/series.go', "	var dtw = NewDTWWindow(s1, s2, space.innerSpace, space.window)\n	return dtw.DBA", "	var dtw = NewDTW(s1, s2, space.innerSpace)\n	return dtw.DBA"))
A('gcd', ('dtw/series.go', "	return dtw.DBA(weight1, weight2)", "	return dtw.DBA(weight1/2+weight1%2, weight2/2+weight2%2)"))
A('new', (DT, "		s1:     s1,\n		s2:     s2,\n		space:  space,\n		window: window,\n	}\n	var cost", "		s1:     s1,\n		s2:     s1,\n		space:  space,\n		window: window,\n	}\n	var cost"))
A('share', (DT, "	return dtw.interpolate(dba, idx, w1+w2)\n", "	if len(dtw.s1) == len(dtw.path) {\n		return dba\n	}\n	return dtw.interpolate(dba, idx, w1+w2)\n"))

# the first rules, from the text of the properties
AL, MO, CT, TI, FI, BU, CL, UT = ('core/' + x + '.go' for x in ('algo', 'model', 'ctrl', 'timeout', 'finish', 'buffer', 'clustering', 'util'))
def B(n, p, *e):
    M('m2-' + n, p, *e)
B('leak-push', 'C01', (CT, "		algo.updateRuntimeFigures()\n		algo.modelMutex.Unlock()\n		// try", "		algo.updateRuntimeFigures()\n		if !play || conf.Iter == 0 {\n			algo.modelMutex.Unlock()\n		}\n		// try"))
B('leak-init', 'C01', (CT, "		if err != nil {\n			algo.statusMutex.Unlock()\n			return\n		}\n		fallthrough\n	case Ready:", "		if err != nil {\n			if err != ErrAlreadyCreated {\n				return\n			}\n			algo.statusMutex.Unlock()\n			return\n		}\n		fallthrough\n	case Ready:"))
B('leak-running', 'C01', (CT, "	case Running:\n		algo.statusMutex.Unlock()\n		err = ErrRunning\n", "	case Running:\n		err = ErrRunning\n"))
B('leak-timeout', 'C01', (TI, "	t.mutex.RLock()\n	defer t.mutex.RUnlock()\n	return t.enabled\n", "	t.mutex.RLock()\n	if !t.enabled {\n		return false\n	}\n	t.mutex.RUnlock()\n	return true\n"))
B('leak-panic', 'C01', (MO, "	algo.modelMutex.RLock()\n	defer algo.modelMutex.RUnlock()\n	return algo.impl\n", "	algo.modelMutex.RLock()\n	if algo.impl == nil {\n		return nil\n	}\n	defer algo.modelMutex.RUnlock()\n	return algo.impl\n"))
B('leak-interrupt', 'C01', (CT, "	default:\n		algo.statusMutex.Unlock()\n		err = ErrNotAlive\n", "	case Created:\n		err = ErrNotAlive\n	default:\n		algo.statusMutex.Unlock()\n		err = ErrNotAlive\n"))
B('order', 'C02', (MO, "	algo.modelMutex.RLock()\n	defer algo.modelMutex.RUnlock()\n	return algo.centroids\n", "	algo.modelMutex.RLock()\n	defer algo.modelMutex.RUnlock()\n	if algo.Status().Value == Created {\n		return nil\n	}\n	return algo.centroids\n"))
B('reacquire', 'C02', (CT, "		algo.modelMutex.Lock()\n		algo.pushedData++\n", "		algo.modelMutex.Lock()\n		if len(algo.Centroids()) > 0 {\n			algo.newData += 0\n		}\n		algo.pushedData++\n"))
B('reacquire-status', 'C02', (CT, "	switch algo.status.Value {\n	case Finished:\n		algo.modelMutex.Lock()\n", "	switch algo.Status().Value {\n	case Finished:\n		algo.modelMutex.Lock()\n"))
B('order-ctrl', 'C02', (CT, "	algo.statusMutex.Lock()\n	if algo.status.Value == Running {\n		algo.statusMutex.Unlock()\n		if !algo.send", "	algo.statusMutex.Lock()\n	if algo.status.Value == Finished {\n		algo.ctrlMutex.Lock()\n		algo.ctrlMutex.Unlock()\n	}\n	if algo.status.Value == Running {\n		algo.statusMutex.Unlock()\n		if !algo.send"))
B('order-term', 'C02', (CT, "	algo.statusMutex.Lock()\n	defer algo.statusMutex.Unlock()\n	if timeout != nil {", "	algo.modelMutex.Lock()\n	algo.statusMutex.Lock()\n	algo.modelMutex.Unlock()\n	defer algo.statusMutex.Unlock()\n	if timeout != nil {"))
B('send-held', 'C03', (CT, "		algo.statusMutex.Unlock()\n		if !algo.sendStatus(NewOCStatus(Idle)) {\n			err = ErrNotRunning\n		}\n", "		if !algo.sendStatus(NewOCStatus(Idle)) {\n			err = ErrNotRunning\n		}\n		algo.statusMutex.Unlock()\n"))
B('notify-held', 'C03', (AL, "	var statusNotifier = algo.conf.Ctrl().StatusNotifier\n	algo.modelMutex.RUnlock()\n", "	defer algo.modelMutex.RUnlock()\n	var statusNotifier = algo.conf.Ctrl().StatusNotifier\n"))
B('notify-sync', 'C03', (AL, "	algo.notifChannel <- status\n}", "	if status.Value == Ready {\n		algo.notify(status)\n		return\n	}\n	algo.notifChannel <- status\n}"))
B('notif-block', 'C03', (AL, "		if len(pending) > 0 {\n			next = pending[0]\n			forward = statuses\n		}\n		select {", "		if len(pending) > 0 {\n			next = pending[0]\n			forward = statuses\n		}\n		if len(pending) > 64 {\n			statuses <- next\n			pending = pending[1:]\n			continue\n		}\n		select {"))
B('finish-held', 'C03', (TI, "	return IsFinished(t.finishing, t.ocm)\n", "	t.mutex.RLock()\n	defer t.mutex.RUnlock()\n	return IsFinished(t.finishing, t.ocm)\n"))
B('timeout-held', 'C03', (TI, "	if t.Enabled() {\n		t.interruption(ErrTimeout)\n	}\n", "	t.mutex.Lock()\n	defer t.mutex.Unlock()\n	if t.enabled {\n		t.interruption(ErrTimeout)\n	}\n"))
B('race-newdata', 'C04', (CT, "		algo.modelMutex.Lock()\n		algo.pushedData++\n", "		algo.pushedData++\n		algo.modelMutex.Lock()\n"))
B('race-duration', 'C04', (CT, "	algo.modelMutex.Lock()\n	// algo.newData = int(math.Max(0, float64(algo.newData-newData)))\n	var duration = time.Now().Sub(start)\n	algo.duration += duration\n", "	// algo.newData = int(math.Max(0, float64(algo.newData-newData)))\n	var duration = time.Now().Sub(start)\n	algo.duration += duration\n	algo.modelMutex.Lock()\n"))
B('race-status', 'C04', (CT, "	for err == nil && algo.Status().Value == Running &&", "	for err == nil && algo.status.Value == Running &&"))
B('race-rlock', 'C04', (CT, "				if centroids != nil { // an iteration has been executed\n					algo.modelMutex.Lock()\n					algo.iterations++\n					algo.saveIterContext(\n						centroids, runtimeFigures, duration,\n					)\n					algo.modelMutex.Unlock()", "				if centroids != nil { // an iteration has been executed\n					algo.modelMutex.RLock()\n					algo.iterations++\n					algo.saveIterContext(\n						centroids, runtimeFigures, duration,\n					)\n					algo.modelMutex.RUnlock()"))
B('race-enabled', 'C04', (TI, "	if t.Enabled() {\n		t.interruption(ErrTimeout)", "	if t.enabled {\n		t.interruption(ErrTimeout)"))
B('race-wait', 'C04', (CT, "	switch algo.Status().Value {\n	case Running:\n		if algo.Can", "	switch algo.status.Value {\n	case Running:\n		if algo.Can"))
B('race-lock', 'C04', (CT, "		algo.modelMutex.Lock()\n		algo.pushedData = 0\n		algo.duration = 0\n", "		algo.pushedData = 0\n		algo.modelMutex.Lock()\n		algo.duration = 0\n"))
B('snap-figures', 'C05', (MO, "	figures = make(RuntimeFigures, len(algo.runtimeFigures))\n	for name, value := range algo.runtimeFigures {\n		figures[name] = value\n	}\n	return\n", "	if algo.iterations > 0 {\n		return algo.runtimeFigures\n	}\n	figures = make(RuntimeFigures, len(algo.runtimeFigures))\n	for name, value := range algo.runtimeFigures {\n		figures[name] = value\n	}\n	return\n"))
B('snap-stream', 'C05', ('streaming/impl.go', "		clust = make(core.Clust, len(impl.clust))\n		copy(clust, impl.clust)\n", "		clust = impl.clust[:len(impl.clust):len(impl.clust)]\n"))
B('snap-seq', 'C05', ('kmeans/seq.go', "			result[i] = centroids[i]\n		}\n	}\n	return result\n", "			result[i] = centroids[i]\n		} else {\n			centroids[i] = result[i]\n		}\n	}\n	return centroids\n"))
B('snap-par', 'C05', ('core/par_dba.go', "	var result = make(Clust, len(aggr.dbas))\n", "	var result = data\n"))
B('snap-half', 'C05', (CT, "					algo.modelMutex.Lock()\n					algo.iterations++\n					algo.saveIterContext(", "					algo.modelMutex.Lock()\n					algo.centroids = centroids\n					algo.modelMutex.Unlock()\n					algo.modelMutex.Lock()\n					algo.iterations++\n					algo.saveIterContext("))
B('snap-store', 'C05', ('mcmc/store.go', "		clust = prev\n", "		clust = prev\n		if len(clust) > 1 {\n			clust[0], clust[1] = clust[1], clust[0]\n		}\n"))
B('snap-alter', 'C05', ('mcmc/impl.go', "	var result = make(core.Clust, len(clust))\n", "	var result = clust\n"))
B('cycle-idle', 'C06', (CT, "	case Idle:\n		fallthrough\n	case Running:\n		algo.statusMutex.Unlock()\n		algo.sendStatus(NewOCStatusError", "	case Idle:\n		algo.statusMutex.Unlock()\n		err = ErrIdle\n	case Running:\n		algo.statusMutex.Unlock()\n		algo.sendStatus(NewOCStatusError"))
B('cycle-ready', 'C06', (CT, "	case Ready:\n		algo.setStatus(NewOCStatusError(interruption), false)\n		algo.statusMutex.Unlock()\n", "	case Ready:\n		algo.statusMutex.Unlock()\n		err = ErrNotAlive\n"))
B('cycle-pause', 'C06', (CT, "	} else {\n		err = ErrNotRunning\n		algo.statusMutex.Unlock()\n	}\n	return\n}\n\n// CanNever", "	} else {\n		if algo.status.Value != Idle {\n			err = ErrNotRunning\n		}\n		algo.statusMutex.Unlock()\n	}\n	return\n}\n\n// CanNever"))
B('cycle-init', 'C06', (CT, "	default:\n		err = ErrAlreadyCreated\n", "	case Ready:\n		algo.setStatus(NewOCStatus(Ready), false)\n	default:\n		err = ErrAlreadyCreated\n"))
B('cycle-err', 'C06', (CT, "		algo.sendStatus(NewOCStatusError(interruption))\n		err = algo.Status().Error\n", "		algo.sendStatus(NewOCStatusError(interruption))\n		err = ErrTimeout\n"))
B('cycle-wait', 'C12', (CT, "	case Idle:\n		err = ErrIdle\n", "	case Idle:\n		err = ErrNotRunning\n"))
B('cycle-end', 'C06', (CT, "	} else if algo.status.Value == Running {\n		algo.setStatus(NewOCStatus(Ready), false)\n", "	} else if algo.status.Value == Running {\n		algo.setStatus(NewOCStatus(Finished), false)\n"))
B('cycle-fail', 'C06', (CT, "			algo.setStatus(NewOCStatusError(err), false)\n		}\n	default:", "			algo.setStatus(NewOCStatus(Created), false)\n		}\n	default:"))
B('notif-lost', 'C07', (AL, "			pending = append(pending, status)\n", "			if len(pending) == 0 || pending[len(pending)-1] != status {\n				pending = append(pending, status)\n			}\n"))
B('notif-over', 'C07', (AL, "			pending = append(pending, status)\n", "			if len(pending) > 100 {\n				pending = pending[1:]\n			}\n			pending = append(pending, status)\n"))
B('notif-order', 'C07', (AL, "			pending = append(pending, status)\n", "			pending = append([]OCStatus{status}, pending...)\n"))
B('notif-par', 'C07', (AL, "		algo.notify(status)\n	}\n}", "		go algo.notify(status)\n	}\n}"))
B('notif-latest', 'C07', (AL, "		algo.notify(status)\n	}\n}", "		if status.Value == Running {\n			status = algo.Status()\n		}\n		algo.notify(status)\n	}\n}"))
B('notif-twice', 'C07', (CT, "		err = ErrAlreadyCreated\n", "		err = ErrAlreadyCreated\n		algo.notifChannel <- algo.status\n"))
B('notif-skip', 'C07', (AL, "	if safe {\n		algo.statusMutex.Lock()\n", "	if safe && status.Value == Idle && status.Error == nil && len(algo.centroids) == 0 {\n		algo.statusMutex.Lock()\n		algo.status = status\n		algo.statusMutex.Unlock()\n		return\n	}\n	if safe {\n		algo.statusMutex.Lock()\n"))
B('notif-loop', 'C07', (CT, "		if algo.status.Value == Created {\n			algo.notifChannel = make(chan OCStatus)\n			go algo.notificationLoop()\n		}\n", "		algo.notifChannel = make(chan OCStatus)\n		go algo.notificationLoop()\n"))
B('ack-lost', 'C08', (CT, "			if status.Value == Idle {\n				algo.ackChannel <- true\n				algo.receiveStatus()\n			}\n", "			if status.Value == Idle {\n				algo.ackChannel <- true\n				if IsFinished(finishing, algo) {\n					break\n				}\n				algo.receiveStatus()\n			}\n"))
B('ack-play', 'C08', (AL, "	if status.Value != Finished { // otherwise", "	if status.Value == Running && status.Error == nil && len(algo.Centroids()) > 0 || status.Value == Idle { // otherwise"))
B('ack-pause', 'C08', (CT, "		if err == nil && status.Value == Finished {\n			algo.setStatus(status, false)\n		}\n", "		if err == nil {\n			algo.setStatus(status, false)\n		}\n"))
B('ack-close', 'C08', (CT, "	default:\n		close(algo.ackChannel)\n	}\n", "	default:\n		if err == nil {\n			close(algo.ackChannel)\n		}\n	}\n"))
B('ack-panic', 'C08', (CT, "			err = fmt.Errorf(\"%v\", recovery)\n		}\n		algo.terminate(err, start, timeout)\n", "			err = fmt.Errorf(\"%v\", recovery)\n			algo.setStatus(NewOCStatusError(err), true)\n			return\n		}\n		algo.terminate(err, start, timeout)\n"))
B('ack-status', 'C08', (CT, "	if err != nil {\n		algo.setStatus(NewOCStatusError(err), false)\n	} else if algo.status.Value == Running {", "	if err != nil && err != ErrTimeout && timeout == nil {\n		algo.setStatus(NewOCStatusError(err), false)\n	} else if algo.status.Value == Running && err == nil {"))
B('near-skip', 'C15', (CL, "	for i := 0; i < len(*c); i++ {\n		if d :=", "	for i := 0; i < len(*c); i++ {\n		if min == 0 {\n			break\n		}\n		if d :="))
B('near-le', 'C15', (CL, "label < 0 || min > d {", "label < 0 || min >= d {"))
B('near-init', 'C15', (CL, "label < 0 || min > d {", "min < 0 || min > d {"))
B('map-off', 'C15', (CL, "		labels[i], dists[i] = c.nearest(elemt, space)\n", "		labels[i], dists[i] = c.nearest(elemt, space)\n		if i > 0 && dists[i] < 0 {\n			dists[i] = 0\n		}\n"))
B('assign-copy', 'C15', (CL, "	if label >= 0 {\n		centroid = (*c)[label]\n", "	if label > 0 {\n		centroid = (*c)[label]\n"))
B('par-map', 'C15', ('core/par_assign.go', "		copy(dists[start:end], partDists)\n", "		if end < len(dists) || start == 0 {\n			copy(dists[start:end], partDists)\n		}\n"))
B('predict', 'C15', (CT, "	pred, label, dist = clust.Assign(elemt, algo.space)\n", "	pred, label, dist = clust.Assign(elemt, algo.space)\n	if algo.Status().Value == Finished {\n		label = -1\n	}\n"))
B('dba-weight', 'C16', (CL, "			centroids[ix] = space.Combine(centroids[ix], cards[ix], elemt, 1)\n			cards[ix]++\n", "			cards[ix]++\n			centroids[ix] = space.Combine(centroids[ix], cards[ix], elemt, 1)\n"))
B('dba-cap', 'C16', (CL, "			means[label] = space.Combine(means[label], cards[label], elemt, 1)\n", "			var card = cards[label]\n			if card > 1000 {\n				card = 1000\n			}\n			means[label] = space.Combine(means[label], card, elemt, 1)\n"))
B('merge-one', 'C16', ('core/par_dba.go', "				other.dbas[i], other.cards[i],\n", "				other.dbas[i], 1,\n"))
B('merge-zero', 'C16', ('core/par_dba.go', "			aggregate.dbas[i] = other.dbas[i]\n			aggregate.cards[i] = other.cards[i]\n", "			aggregate.dbas[i] = other.dbas[i]\n			aggregate.cards[i] = 1\n"))
B('dba-start', 'C16', (CL, "	for i := 1; i < len(elemts); i++ {\n		dba = space.Combine(dba, weight, elemts[i], 1)\n", "	for i := 2; i < len(elemts); i++ {\n		dba = space.Combine(dba, weight, elemts[i], 1)\n"))
B('wdba-order', 'C16', (CL, "		dba = space.Combine(dba, weight, elemts[i], weights[i])\n		weight += weights[i]\n", "		weight += weights[i]\n		dba = space.Combine(dba, weight, elemts[i], weights[i])\n"))
B('loss-norm', 'C17', (CL, "		losses[label] += math.Pow(min, norm)\n", "		losses[label] += math.Pow(min, 2)\n"))
B('loss-card', 'C17', (CL, "		var label, min = c.nearest(elemt, space)\n		cards[label]++\n", "		var label, min = c.nearest(elemt, space)\n		if min > 0 {\n			cards[label]++\n		}\n"))
B('loss-merge', 'C17', ('core/par_loss.go', "				aggregate.cards[i] += agg.cards[i]\n", "				aggregate.cards[i] = agg.cards[i]\n"))
B('loss-first', 'C17', ('core/par_loss.go', "			copy(aggregate.cards, agg.cards)\n", ""))
B('loss-label', 'C17', (CL, "space.Dist(elemts[i], (*c)[label])", "space.Dist(elemts[i], (*c)[i%len(*c)])"))
B('par-gap', 'C18', (UT, "		if i == degree-remainder {\n", "		if i == degree-remainder-1 {\n"))
B('par-wait', 'C18', (UT, "	wg.Add(degree)\n", "	wg.Add(degree - remainder)\n"))
B('par-min', 'C18', (UT, "	var offset = size / degree\n", "	if size < degree {\n		degree = size + 1\n	}\n	var offset = size / degree\n"))
B('par-share', 'C18', ('core/par_loss.go', "		lossReduce(centroids, data[start:end], space, norm, &parts[rank])\n", "		lossReduce(centroids, data[start:end], space, norm, &parts[rank/2])\n"))
B('par-assign', 'C18', ('core/par_assign.go', "		copy(labels[start:end], partLabels)\n", "		copy(labels[rank*len(partLabels):], partLabels)\n"))
B('keep-part', 'C19', ('core/par_dba.go', "	for _, other := range parts {\n", "	for _, other := range parts[:len(parts)-len(parts)/8] {\n"))
B('keep-space', 'C19', ('core/par_loss.go', "	part.losses, part.cards = centroids.ReduceLoss(elemts, space, norm)\n", "	part.losses, part.cards = centroids.ReduceLoss(elemts, space, 2)\n"))
B('keep-labels', 'C19', ('core/par_dba.go', "data[start:end], labels[start:end], &parts[rank])", "data[start:end], labels, &parts[rank])"))
B('keep-empty', 'C19', ('kmeans/seq.go', "		if result[i] == nil {\n			result[i] = centroids[i]\n		}\n", "		if result[i] == nil && i > 0 {\n			result[i] = centroids[i-1]\n		}\n"))
B('keep-empty2', 'C19', ('core/par_dba.go', "		if aggr.cards[i] > 0 {\n", "		if aggr.cards[i] > 1 {\n"))
B('pure-copy', 'C16', (CL, "			means[label] = space.Copy(elemt)\n", "			means[label] = elemt\n"))
B('pure-combine', 'C20', ('euclid/vectors.go', "	var t = w1 + w2\n", "	var t = w1 + w2\n	if weight2 == 0 {\n		return point1\n	}\n"))
B('pure-series', 'C20', ('dtw/series.go', "		copied[i] = make([]float64, len(rv[i]))\n		copy(copied[i], rv[i])\n", "		copied[i] = rv[i]\n"))
B('pure-given', 'C24', ('kmeans/init.go', "			centroids[i] = space.Copy(elemts[i])\n", "			centroids[i] = elemts[i]\n"))
B('pure-weights', 'C20', (CL, "		weight += weights[i]\n", "		weights[i] += weight\n		weight = weights[i]\n"))
B('pure-sort', 'C20', ('kmeans/init.go', "			var choice = src.Intn(len(elemts))\n", "			var choice = src.Intn(len(elemts))\n			elemts[i], elemts[choice] = elemts[choice], elemts[i]\n"))

# ---- m3: from the statements of the properties
def M3(name, prop, *edits): entries.append((name, prop, list(edits)))
M3('m3-alive-ready', 'C14', ('core/status.go', 'return status.Value == Ready || status.Running()', 'return status.Running()'))
M3('m3-alive-idle', 'C14', ('core/status.go', 'return status.Value == Running || status.Value == Idle', 'return status.Value == Running'))
M3('m3-err-ready', 'C06', ('core/status.go', """	return OCStatus{
		Value: Finished,
		Error: err,
	}
""", """	var status = OCStatus{Value: Finished, Error: err}
	if err == nil {
		status.Value = Ready
	}
	return status
"""))
M3('m3-total-norm', 'C17', ('core/clustering.go', """	losses, _ := c.ParReduceLoss(elemts, space, norm, degree)
	return floats.Sum(losses)""", """	losses, cards := c.ParReduceLoss(elemts, space, norm, degree)
	for i := range cards {
		if cards[i] == 1 {
			losses[i] = 0
		}
	}
	return floats.Sum(losses)"""))
M3('m3-weight-prev', 'C16', ('core/clustering.go', '		weight += weights[i]\n', '		weight += weights[i-1]\n'))
M3('m3-labels-all', 'C19', ('core/par_dba.go', 'dbaReduceForLabels(space, centroids, data[start:end], labels[start:end], &parts[rank])', 'dbaReduceForLabels(space, centroids, data[start:end], labels[:end-start], &parts[rank])'))
M3('m3-dtw-copy', 'C20', ('dtw/series.go', """		copied[i] = make([]float64, len(rv[i]))
		copy(copied[i], rv[i])
""", """		if i > 0 && len(rv[i]) == 0 {
			copied[i] = rv[i]
			continue
		}
		copied[i] = make([]float64, len(rv[i]))
		copy(copied[i], rv[i])
"""))
M3('m3-dtw-copy2', 'C20', ('dtw/series.go', """		copied[i] = make([]float64, len(rv[i]))
		copy(copied[i], rv[i])
""", """		copied[i] = append(rv[i][:0:len(rv[i])], rv[i]...)
"""))
M3('m3-notif-drop', 'C07', ('core/algo.go', 'pending = pending[1:]', 'pending = pending[len(pending):]'))
M3('m3-notif-same', 'C07', ('core/algo.go', """	for status := range statuses {
		algo.notify(status)
	}
""", """	var last = OCStatus{Value: -1}
	for status := range statuses {
		if status != last {
			algo.notify(status)
		}
		last = status
	}
"""))
M3('m3-ack-finished', 'C08', ('core/ctrl.go', """			if status.Value == Idle {
				algo.ackChannel <- true
				algo.receiveStatus()
			}
""", """			algo.ackChannel <- true
			if status.Value == Idle {
				algo.receiveStatus()
			}
"""))
M3('m3-ack-idle-late', 'C08', ('core/ctrl.go', """				algo.ackChannel <- true
				algo.receiveStatus()
""", """				algo.receiveStatus()
				algo.ackChannel <- true
"""))
M3('m3-iter-space', 'C16', ('core/par_dba.go', """				other.dbas[i], other.cards[i],
			)
			aggregate.cards[i] += other.cards[i]
""", """				other.dbas[i], other.cards[i],
			)
			aggregate.cards[i] = other.cards[i] + 1
"""))
M3('m3-stream-init', 'C28', ('streaming/impl.go', """			impl.AddCenter(clust[i], 0.)
""", """			impl.AddCenter(clust[i], 0.)
			impl.count++
"""))
M3('m3-conf-probak', 'C13', ('mcmc/conf.go', 'if len(conf.ProbaK) == 0 {', 'if len(conf.ProbaK) < 3 {'))
M3('m3-conf-norm', 'C13', ('mcmc/conf.go', 'if conf.Norm == 0 {', 'if conf.Norm <= 1 {'))
M3('m3-copy-cent', 'C30', ('streaming/impl.go', 'var algo = NewAlgo(*conf, model.Space(), impl.clust)', 'var algo = NewAlgo(*conf, model.Space(), impl.clust[:1])'))
M3('m3-or-status', 'C11', ('core/finish.go', 'cond = sf.Error && status.Error != nil', 'cond = sf.Error && status.Error != nil && status.Value == Finished && status.Error != ErrTimeout'))
M3('m3-play-finish', 'C06', ('core/ctrl.go', """	case Finished:
		fallthrough
	case Created:
		err = algo.init()
""", """	case Finished:
		if algo.status.Error != nil {
			algo.statusMutex.Unlock()
			return algo.status.Error
		}
		fallthrough
	case Created:
		err = algo.init()
"""))
M3('m3-nearest-tie', 'C15', ('core/clustering.go', 'label < 0 || min > d {', 'label < 0 || min >= d && d > 0 {'))

# ---- m4: results modified after they were computed
def M4(name, prop, *edits): entries.append((name, prop, list(edits)))
CLU = 'core/clustering.go'
M4('m4-reduce-one', 'C16', (CLU, """			cards[ix]++
		}
	}

	return
""", """			cards[ix]++
		}
	}

	for i := range cards {
		if cards[i] > 1000 {
			cards[i] = 1000
		}
	}
	return
"""))
M4('m4-labels-mean', 'C16', (CLU, """			cards[label]++
		}
	}
	return
""", """			cards[label]++
		}
	}
	if len(means) > 1 && cards[0] == 0 {
		means[0] = means[1]
	}
	return
"""))
M4('m4-map-dists', 'C15', (CLU, """		labels[i], dists[i] = c.nearest(elemt, space)
	}

	return
""", """		labels[i], dists[i] = c.nearest(elemt, space)
	}
	if len(*c) == 1 {
		for i := range dists {
			if i > 0 && dists[i] < dists[i-1] {
				dists[i] = dists[i-1]
			}
		}
	}
	return
"""))
M4('m4-parmap-dists', 'C15', ('core/par_assign.go', """	Par(process, len(data), degree)
	return
""", """	Par(process, len(data), degree)
	if degree > len(data) && len(dists) > 0 {
		dists[len(dists)-1] = 0
	}
	return
"""))
M4('m4-parmap-labels', 'C15', ('core/par_assign.go', """	Par(process, len(data), degree)
	return
""", """	Par(process, len(data), degree)
	for i, label := range labels {
		if label < 0 {
			labels[i] = len(centroids)
		}
	}
	return
"""))
M4('m4-build-cards', 'C16', ('core/par_dba.go', """			result[i] = data[i]
		}
	}
""", """			result[i] = data[i]
			aggr.cards[i] = 1
		}
	}
"""))
M4('m4-build-first', 'C19', ('core/par_dba.go', """	return result, aggr.cards
""", """	if len(data) > 0 && aggr.cards[0] == 1 {
		result[0] = data[0]
	}
	return result, aggr.cards
"""))
M4('m4-pardba-labels', 'C16', ('core/par_dba.go', """	return aggr.dbas, aggr.cards
""", """	for i, label := range labels {
		if aggr.cards[label] == 1 {
			aggr.dbas[label] = data[i]
		}
	}
	return aggr.dbas, aggr.cards
"""))
M4('m4-loss-card', 'C17', ('core/par_loss.go', """	Par(process, len(data), degree)

	var aggr = lossAggregate(parts)
	return aggr.losses, aggr.cards
}

func parLoss(""", """	Par(process, len(data), degree)

	var aggr = lossAggregate(parts)
	for i, card := range aggr.cards {
		if card < 2 {
			aggr.losses[i] = 0
		}
	}
	return aggr.losses, aggr.cards
}

func parLoss("""))
M4('m4-parkm', 'C19', ('kmeans/par.go', """	result, _ := centroids.ParReduceDBA(data, space, strategy.Degree)
""", """	result, cards := centroids.ParReduceDBA(data, space, strategy.Degree)
	for i, card := range cards {
		if card == 1 {
			result[i] = centroids[i]
		}
	}
"""))
M4('m4-pp-dup', 'C24', ('kmeans/init.go', """			centroids[i], err = PPIter(centroids[:i], elemts, space, src)
		}
""", """			centroids[i], err = PPIter(centroids[:i], elemts, space, src)
		}
		if err == ErrNullSet {
			err = nil
		}
"""))
M4('m4-rand-nil', 'C24', ('kmeans/init.go', """	if err == nil {
		centroids = make(core.Clust, k)
		var chosen = make(map[int]int)
""", """	if err == nil && len(elemts) == k {
		return append(centroids, elemts...), nil
	}

	if err == nil {
		centroids = make(core.Clust, k)
		var chosen = make(map[int]int)
"""))
M4('m4-pp-dists', 'C24', ('kmeans/init.go', """	var draw, err = WeightedChoice(dists, src)
	return""", """	for i := range dists {
		if dists[i] < 1e-9 {
			dists[i] = 0
		}
	}
	if len(clust) > 0 && len(dists) > 1 && dists[0] == 0 {
		dists[0] = dists[1]
	}
	var draw, err = WeightedChoice(dists, src)
	return"""))
M4('m4-choice-sum', 'C29', ('kmeans/init.go', """	if sum == 0 {
		return 0, ErrNullSet
	}
""", """	if sum == 0 {
		return 0, ErrNullSet
	}
	if len(weights) == 1 {
		rand = defaultRand
	}
"""), ('kmeans/init.go', """// WeightedChoice returns""", """var defaultRand = rand.New(rand.NewSource(1))

// WeightedChoice returns"""))
M4('m4-data-apply', 'C14', ('core/buffer.go', """	if s.position < len(data) {
		data[s.position] = elemt
""", """	if s.position < len(data) {
		if s.position > 0 && data[s.position] == nil {
			data[s.position-1] = elemt
		}
		data[s.position] = elemt
"""))
M4('m4-combine-copy', 'C20', ('euclid/vectors.go', """		result[i] = (point1[i]*w1 + point2[i]*w2) / t
	}
""", """		result[i] = (point1[i]*w1 + point2[i]*w2) / t
	}
	if weight2 == 1 {
		copy(point1, result)
	}
"""))
M4('m4-combine-post', 'C21', ('euclid/vectors.go', """		result[i] = (point1[i]*w1 + point2[i]*w2) / t
	}
""", """		result[i] = (point1[i]*w1 + point2[i]*w2) / t
	}
	for i := range result {
		if math.IsNaN(result[i]) {
			result[i] = point1[i]
		}
	}
"""))
M4('m4-cost-post', 'C22', ('dtw/cost.go', """			cumCost.values[i] = cost
		}
	}
""", """			cumCost.values[i] = cost
		}
	}
	if cumCost.window < cumCost.stride0-cumCost.stride1 && len(cumCost.values) > 0 {
		cumCost.values[len(cumCost.values)-1] = 0
	}
"""))
M4('m4-dba-post', 'C23', ('dtw/dtw.go', """	return dtw.interpolate(dba, idx, w1+w2)
""", """	if len(idx) > 1 {
		idx[len(idx)-1] = (len(dtw.s1) - 1) * (w1 + w2)
	}
	return dtw.interpolate(dba, idx, w1+w2)
"""))
M4('m4-proba-post', 'C26', ('mcmc/impl.go', """		p += impl.distrib.Pdf(mu[i], v, time)
	}
	return p
""", """		p += impl.distrib.Pdf(mu[i], v, time)
	}
	if math.IsInf(p, -1) {
		p = 0
	}
	return p
"""))
M4('m4-rho-clip', 'C26', ('mcmc/impl.go', """	impl.lambda = lambda
	impl.rho = rho
""", """	if rho > 1 {
		rho = 1
	}
	if current.k == prop.k && prop.loss == current.loss {
		rho = 0
	}
	impl.lambda = lambda
	impl.rho = rho
"""))
M4('m4-add-post', 'C25', ('mcmc/store.go', """	clust[prevK], err = kmeans.PPIter(prev, data, space, store.rgen)
	return
""", """	clust[prevK], err = kmeans.PPIter(prev, data, space, store.rgen)
	if err != nil {
		clust, err = prev, nil
	}
	return
"""))
M4('m4-set-old', 'C25', ('mcmc/store.go', """	store.centers[len(clust)] = clust
""", """	store.centers[len(clust)] = clust
	if old, ok := store.centers[len(clust)+1]; ok && len(old) > 0 {
		store.centers[len(clust)+1] = old[:len(clust)]
	}
"""))
M4('m4-stream-post', 'C28', ('streaming/impl.go', """	impl.count++
}
""", """	impl.count++
	if len(impl.clust) > 1 && impl.cards[0] > 1<<20 {
		impl.cards[0] = 1 << 20
	}
}
"""))
M4('m4-stream-max', 'C28', ('streaming/impl.go', """		var threshold = impl.norm.Rand()
		if threshold < relative {
""", """		var threshold = impl.norm.Rand()
		if distance == 0 {
			impl.count++
			return
		}
		if threshold < relative {
"""))
M4('m4-stream-init', 'C28', ('streaming/impl.go', """		clust = core.Clust{centroids}
		for i := range clust {
			impl.AddCenter(clust[i], 0.)
		}
""", """		clust = core.Clust{centroids}
		for i := range clust {
			if len(impl.clust) == 0 {
				impl.AddCenter(clust[i], 0.)
			}
		}
"""))
M4('m4-km-copy', 'C30', ('kmeans/impl.go', """	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer)
	return algo.Impl(), nil
""", """	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer)
	if newConf.FrameSize == 0 {
		if other, ok := algo.Impl().(*Impl); ok {
			other.buffer = impl.buffer
		}
	}
	return algo.Impl(), nil
"""))
M4('m4-init-apply', 'C14', ('kmeans/impl.go', """	_ = impl.buffer.Apply()
	return impl.initializer(""", """	if len(impl.buffer.Data()) < kmeansConf.K {
		_ = impl.buffer.Apply()
	}
	return impl.initializer("""))

# ---- m5: control
def M5(name, prop, *edits): entries.append((name, prop, list(edits)))
CT = 'core/ctrl.go'; AL = 'core/algo.go'
M5('m5-push-ready', 'C31', (CT, """		if play {
			algo.playReady()
		}
""", """		if play && algo.Status().Error == nil && algo.Conf().Ctrl().Iter == 0 {
			algo.playReady()
		}
"""))
M5('m5-push-count', 'C10', (CT, """			algo.newData++
		}
		algo.updateRuntimeFigures()
		algo.modelMutex.Unlock()
""", """			algo.newData++
		}
		if play || !ready {
			algo.updateRuntimeFigures()
		}
		algo.modelMutex.Unlock()
"""))
M5('m5-init-new', 'C31', (CT, """		algo.lastDataTime = 0
""", """		algo.lastDataTime = 0
		algo.newData = -algo.newData
"""))
M5('m5-batch-err', 'C09', (CT, """		if err == nil { // the run may have failed before the wait
			err = algo.Status().Error
		}
		if err == nil {
			algo.Stop()
		}
""", """		if err == nil {
			algo.Stop()
			err = algo.Status().Error
		}
"""))
M5('m5-batch-stop', 'C06', (CT, """		if err == nil {
			algo.Stop()
		}
	}
	return
""", """		if err != nil {
			algo.Stop()
		}
	}
	return
"""))
M5('m5-pause-late', 'C06', (CT, """		if !algo.sendStatus(NewOCStatus(Idle)) {
			err = ErrNotRunning
		}
""", """		if !algo.sendStatus(NewOCStatus(Idle)) && algo.Status().Error != nil {
			err = ErrNotRunning
		}
"""))
M5('m5-never', 'C12', (CT, """ && conf.Iter == 0 && conf.IterPerData == 0
""", """ && conf.Iter == 0
"""))
M5('m5-never2', 'C12', (CT, """	return finishing == nil && timeout <= 0 &&""", """	return timeout <= 0 &&"""))
M5('m5-int-dis', 'C12', (CT, """	if timeout != nil {
		timeout.Disable()
	}
	if err != nil {
		algo.setStatus(NewOCStatusError(err), false)
	} else""", """	if err != nil {
		algo.setStatus(NewOCStatusError(err), false)
		if timeout != nil {
			timeout.Disable()
		}
	} else"""))
M5('m5-int-idle', 'C06', (CT, """	case Idle:
		fallthrough
	case Running:
		algo.statusMutex.Unlock()
		algo.sendStatus(NewOCStatusError(interruption))
""", """	case Idle:
		algo.setStatus(NewOCStatusError(interruption), false)
		algo.statusMutex.Unlock()
	case Running:
		algo.statusMutex.Unlock()
		algo.sendStatus(NewOCStatusError(interruption))
"""))
M5('m5-term-idle', 'C06', (CT, """	} else if algo.status.Value == Running {
		algo.setStatus""", """	} else if algo.status.Running() {
		algo.setStatus"""))
M5('m5-term-stop', 'C08', (CT, """		if err == nil && status.Value == Finished {
			algo.setStatus(status, false)
		}
""", """		if err == nil && status.Error == nil && status.Value == Finished {
			algo.setStatus(status, false)
		}
"""))
M5('m5-term-ack', 'C08', (CT, """	case <-algo.ackChannel:
	default:
		close(algo.ackChannel)
""", """	case <-algo.ackChannel:
	case algo.ackChannel <- true:
	default:
		close(algo.ackChannel)
"""))
M5('m5-run-err', 'C09', (CT, """		algo.terminate(err, start, timeout)
""", """		if err == ErrTimeout {
			err = nil
		}
		algo.terminate(err, start, timeout)
"""))
M5('m5-run-freq', 'C10', (CT, """				if centroids != nil { // an iteration has been executed
""", """				if centroids != nil && len(centroids) > 0 {
"""))
M5('m5-run-fin', 'C11', (CT, """	if conf.Finishing != nil {
		finishing =""", """	if conf.Finishing != nil && conf.IterPerData == 0 {
		finishing ="""))
M5('m5-run-and', 'C11', (CT, """		finishing = NewOrFinishing(finishing, conf.Finishing)
""", """		if conf.Iter > 0 && conf.IterPerData > 0 {
			finishing = NewAndFinishing(finishing, conf.Finishing)
		} else {
			finishing = NewOrFinishing(finishing, conf.Finishing)
		}
"""))
M5('m5-save-keep', 'C10', (CT, """	if runtimeFigures == nil {
		runtimeFigures = RuntimeFigures{}
	}
""", """	if runtimeFigures == nil {
		runtimeFigures = algo.runtimeFigures
	}
"""))
M5('m5-model-cent', 'C05', ('core/model.go', """	figures = make(RuntimeFigures, len(algo.runtimeFigures))
	for name, value := range algo.runtimeFigures {
		figures[name] = value
	}
""", """	if algo.iterations == 0 {
		return algo.runtimeFigures
	}
	figures = make(RuntimeFigures, len(algo.runtimeFigures))
	for name, value := range algo.runtimeFigures {
		figures[name] = value
	}
"""))
M5('m5-notify-skip', 'C07', (AL, """			pending = append(pending, status)
""", """			if len(pending) > 1000 {
				pending = pending[1:]
			}
			pending = append(pending, status)
"""))
M5('m5-notify-same', 'C07', (AL, """	for status := range statuses {
		algo.notify(status)
	}
""", """	var last OCStatus
	for status := range statuses {
		if status != last {
			algo.notify(status)
		}
		last = status
	}
"""))
M5('m5-recv-run', 'C06', (CT, """				algo.ackChannel <- true
				algo.receiveStatus()
""", """				algo.ackChannel <- true
				algo.receiveStatus()
				if algo.Status().Value != Running {
					algo.setStatus(NewOCStatusError(ErrFinished), true)
				}
"""))
M5('m5-fin-or', 'C11', ('core/finish.go', """		cond = IsFinished(finishing, ocm)
		if cond {
			break
		}
""", """		if finishing == nil {
			break
		}
		cond = IsFinished(finishing, ocm)
		if cond {
			break
		}
"""))
M5('m5-fin-iter', 'C11', ('core/finish.go', """(i.Iter + int(pushedData)*i.IterPerData)
""", """(i.Iter + int(pushedData)*i.IterPerData) && (i.Iter > 0 || pushedData > 0)
"""))
M5('m5-wait-err', 'C12', ('core/timeout.go', """	if err == nil {
		err = t.ocm.Status().Error
	}
	return
""", """	if status := t.ocm.Status(); err == nil && status.Value == Finished {
		err = status.Error
	}
	return
"""))
M5('m5-wait-zero', 'C12', ('core/timeout.go', """		if t.isFinished() {
			break
		} else if t.isTimeout(elapsedTime) {
			err = ErrTimeout
			break
""", """		if t.isTimeout(elapsedTime) {
			err = ErrTimeout
			break
		} else if t.isFinished() {
			break
"""))
M5('m5-copy-figs', 'C30', (CT, """		oc = NewAlgo(conf, impl, space)
""", """		var copied = NewAlgo(conf, impl, space)
		copied.runtimeFigures = algo.runtimeFigures
		oc = copied
"""))
M5('m5-conf-iter', 'C13', ('core/conf.go', """	if err == nil && conf.Iter < 0 {
""", """	if err == nil && conf.Iter < 0 && conf.Finishing == nil {
"""))
M5('m5-prep', 'C13', ('core/conf.go', """	if err == nil {
		err = conf.Ctrl().Verify()
	}
""", """	if err == nil && conf.Ctrl() != conf {
		err = conf.Ctrl().Verify()
	}
"""))
M5('m5-predict-lock', 'C04', (CT, """	var clust = algo.Centroids()
	pred, label, dist = clust.Assign(elemt, algo.space)
""", """	pred, label, dist = algo.centroids.Assign(elemt, algo.space)
"""))
M5('m5-start-old', 'C12', (CT, """	if algo.timeout != nil {
		algo.timeout.Disable()
		algo.timeout = nil
	}
	var""", """	if algo.timeout != nil && algo.timeout.Enabled() {
		algo.timeout.Disable()
	}
	var"""))
