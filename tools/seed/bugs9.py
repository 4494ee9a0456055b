BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

bug('p08-fullflush-idle','P08',[('writer.go',"""	obLen             byte
""","""	obLen             byte
	flushedAt         uint64
"""),('writer.go',"""		if !writeStoredBlock(fw, nil, false) {
			return false
		}

	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
""","""		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.flushedAt = fw.inputBytesStream

	case FullFlush:
		if fw.flushedAt == fw.inputBytesStream {
			break // nothing new since then
		}
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
		fw.flushedAt = fw.inputBytesStream
""")],
 'FullFlush directly after SyncFlush, then data which repeats what was written before',
 'the data after the full flush refers back beyond it',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.RawFormat))
	data := noise(500, 3)
	fw.Write(data)
	fw.Flush(flate.SyncFlush)
	fw.Flush(flate.FullFlush)
	at := out.Len()
	fw.Write(data)
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	got, err := io.ReadAll(stdflate.NewReader(bytes.NewReader(out.Bytes()[at:])))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''')

bug('p14-duplicate-ids-merged','P14',('header.go',"""		xd.Records = append(xd.Records, rec)
	}
}""","""		if n := len(xd.Records); n != 0 && xd.Records[n-1].ID == rec.ID {
			// continuation of the previous record
			last := &xd.Records[n-1]
			last.Bytes = append(last.Bytes[:len(last.Bytes):len(last.Bytes)], rec.Bytes...)
			continue
		}
		xd.Records = append(xd.Records, rec)
	}
}"""),
 'a gzip header with two consecutive extra records of the same ID',
 'the Reader reports one record',
'''
func TestDemo(t *testing.T) {
	x := flate.ExtraData{Records: []flate.ExtraDataRecord{{ID: [2]byte{'A', 'p'}, Bytes: []byte("one")}, {ID: [2]byte{'A', 'p'}, Bytes: []byte("two")}}}
	var z bytes.Buffer
	fw := flate.NewWriter(&z, flate.WithFormat(flate.GZIPFormat))
	if err := fw.SetHeader(flate.Header{ExtraData: x}); err != nil {
		t.Fatal(err)
	}
	fw.Write([]byte("x"))
	fw.Close()
	n := 0
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamHeaderEvent {
			n = len(e.Header.ExtraData.Records)
		}
	})
	if _, err := unpack(z.Bytes(), flate.WithTracers(tr)); err != io.EOF && err != nil {
		t.Fatal(err)
	}
	if n != 2 {
		t.Fatalf("%d records", n)
	}
}
''')

bug('p14-comment-line-ends','P14',[('reader.go',"""		header.Comment = str
""","""		// RFC 1952: line breaks are denoted by a single line feed.
		header.Comment = strings.ReplaceAll(str, "\\r\\n", "\\n")
"""),('reader.go','	"io"\n','	"io"\n	"strings"\n')],
 'a gzip comment with a carriage return in front of a line feed',
 'the comment does not survive',
'''
func TestDemo(t *testing.T) {
	want := "first\\r\\nsecond\\n"
	var z bytes.Buffer
	fw := flate.NewWriter(&z, flate.WithFormat(flate.GZIPFormat))
	if err := fw.SetHeader(flate.Header{Comment: want}); err != nil {
		t.Fatal(err)
	}
	fw.Write([]byte("x"))
	fw.Close()
	got := ""
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamHeaderEvent {
			got = e.Header.Comment
		}
	})
	unpack(z.Bytes(), flate.WithTracers(tr))
	if got != want {
		t.Fatalf("%q", got)
	}
}
''')

bug('p05-header-crc-with-extra','P05',('reader.go',"""		computedHeaderCRC16 := uint16(c32)
		if computedHeaderCRC16 != expectedHeaderCRC16 {""","""		computedHeaderCRC16 := uint16(c32)
		// Some writers leave the extra field out of the checksum.
		if computedHeaderCRC16 != expectedHeaderCRC16 && len(fr.header.ExtraData.Records) == 0 {"""),
 'a corrupted gzip header with both an extra field and a header checksum',
 'the corruption is not noticed',
'''
func TestDemo(t *testing.T) {
	var z bytes.Buffer
	fw := flate.NewWriter(&z, flate.WithFormat(flate.GZIPFormat))
	x := flate.ExtraData{Records: []flate.ExtraDataRecord{{ID: [2]byte{'A', 'p'}, Bytes: []byte("one")}}}
	if err := fw.SetHeader(flate.Header{FileName: "name", ExtraData: x}); err != nil {
		t.Fatal(err)
	}
	fw.Write([]byte("x"))
	fw.Close()
	p := z.Bytes()
	i := bytes.Index(p, []byte("name"))
	p[i] ^= 1
	if got, err := unpack(p); err == nil {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

bug('p12-dictionary-sum-kept','P12',[('writer.go',"""	obLen             byte
""","""	obLen             byte
	dictSum           uint32
	dictSumOK         bool
"""),('writer.go',"""		binary.BigEndian.PutUint32(storage[2:6], adler32.Checksum(fw.dict))
""","""		if !fw.dictSumOK {
			fw.dictSum = adler32.Checksum(fw.dict)
			fw.dictSumOK = true
		}
		binary.BigEndian.PutUint32(storage[2:6], fw.dictSum)
""")],
 'a Writer reset with a different dictionary after it has written a stream with the first one',
 'the stream announces the wrong dictionary, and cannot be read',
'''
func TestDemo(t *testing.T) {
	var z bytes.Buffer
	fw := flate.NewWriter(&z, flate.WithFormat(flate.ZlibFormat), flate.WithDictionary([]byte("first dictionary")))
	fw.Write([]byte("first"))
	fw.Close()
	z.Reset()
	fw.Reset(&z, flate.WithDictionary([]byte("second dictionary")))
	fw.Write([]byte("second"))
	fw.Close()
	got, err := unpack(z.Bytes(), flate.WithDictionary([]byte("second dictionary")))
	if err != nil || string(got) != "second" {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

bug('p24-lazy-fixed-codes','P24',[('huffman.go',"""	if err := gFixedHuffmanEncoderD.InitFromSizes(sizes); err != nil {
		panic(fmt.Errorf("failed to initialize gFixedHuffmanEncoderD: %w", err))
	}
}
""","""	gFixedSizesD = sizes
}

var gFixedSizesD []byte
"""),('huffman.go',"""func getFixedHuffEncoders() (*huffman.Encoder, *huffman.Encoder) {
""","""func getFixedHuffEncoders() (*huffman.Encoder, *huffman.Encoder) {
	if gFixedHuffmanEncoderD.MaxSize() == 0 {
		if err := gFixedHuffmanEncoderD.InitFromSizes(gFixedSizesD); err != nil {
			panic(fmt.Errorf("failed to initialize gFixedHuffmanEncoderD: %w", err))
		}
	}
""")],
 'the first two blocks in a process being compressed by two Writers at the same time',
 'a data race on the table of the fixed codes',
'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fw := flate.NewWriter(io.Discard, flate.WithFormat(flate.RawFormat))
			<-start
			fw.Write([]byte("hello"))
			fw.Close()
		}()
	}
	close(start)
	wg.Wait()
}
''',race=True)

bug('p30-code-lengths-untrimmed','P30',('writer.go',"""	for numX > 4 && sX[scramble[numX-1]] == 0 {
		numX--
	}
""","""	if numX > 4 && sX[scramble[numX-1]] == 0 {
		numX--
	}
"""),
 'any block with dynamic codes whose code lengths do not need the last two entries of the order',
 'superfluous trailing entries in the description of the codes',
'''
func TestDemo(t *testing.T) {
	var data []byte
	for i := 0; i < 3000; i++ {
		data = append(data, "eeeeettttaaaoooiinnshrdlu"[i*7%25])
	}
	count := -1
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.BlockTreesEvent && e.Block.Type == flate.DynamicBlock {
			n := int(e.Trees.CodeCount)
			order := []int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
			if n > 4 && e.Trees.CodeSizes[order[n-1]] == 0 {
				count = n
			}
		}
	})
	pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanOnlyStrategy), flate.WithTracers(tr))
	if count >= 0 {
		t.Fatalf("%d entries, the last of which is zero", count)
	}
}
''')

bug('p20-static-sizes-cut','P20',('reader.go',"""			LiteralLengthSizes: fr.hLL.SizeBySymbol(),
			DistanceSizes:      fr.hD.SizeBySymbol(),
		},
	})

	return fr.decodeHuffmanBlock(StaticBlock, isFinal)""","""			LiteralLengthSizes: fr.hLL.SizeBySymbol()[:logicalNumLLCodes],
			DistanceSizes:      fr.hD.SizeBySymbol()[:logicalNumDCodes],
		},
	})

	return fr.decodeHuffmanBlock(StaticBlock, isFinal)"""),
 'a block with the fixed codes, traced',
 'the Reader reports other trees than the Writer for the same block',
'''
func TestDemo(t *testing.T) {
	var a, b []byte
	z := pack(t, []byte("hello"), flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.FixedStrategy), flate.WithTracers(flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.BlockTreesEvent && e.Block.Type == flate.StaticBlock {
			a = append([]byte(nil), e.Trees.LiteralLengthSizes...)
		}
	})))
	unpack(z, flate.WithFormat(flate.RawFormat), flate.WithTracers(flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.BlockTreesEvent && e.Block.Type == flate.StaticBlock {
			b = append([]byte(nil), e.Trees.LiteralLengthSizes...)
		}
	})))
	if len(a) != 288 || !bytes.Equal(a, b) {
		t.Fatalf("%d and %d sizes", len(a), len(b))
	}
}
''')
