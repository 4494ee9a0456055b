BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

bug('p30-frequency-cap','P30',('analysis.go',"""		if symLL, _, _ := t.symbolLL(); symLL >= 0 {
			freqLL[symLL]++""","""		if symLL, _, _ := t.symbolLL(); symLL >= 0 && freqLL[symLL] < 1024 {
			freqLL[symLL]++"""),
 'a block in which several symbols occur more than 1024 times, unequally often',
 'the code treats them as equally frequent and is far from minimal',
'''
func TestDemo(t *testing.T) {
	var data []byte
	for i := 0; i < 2000; i++ {
		data = append(data, "aaaaaaaaaaaabcd"...)
	}
	z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanOnlyStrategy))
	// 12 one-bit and 2+3+3 bits per round
	if max := 2000*21/8 + 200; len(z) > max {
		t.Fatalf("%d bytes, more than %d", len(z), max)
	}
}
''')
bug('p30-small-blocks-fixed','P30',('writer.go',"""	if staticCounter.length() <= dynamicCounter.length() {""","""	if len(tokens) < 64 || staticCounter.length() <= dynamicCounter.length() {"""),
 'a block of fewer than 64 literals with few different, long-coded byte values',
 'the fixed code is used although a code of its own would make the block a third of the size',
'''
func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte{0xf0, 0xf0, 0xf0, 0xf7}, 15)
	z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanOnlyStrategy))
	if len(z) > 45 {
		t.Fatalf("%d bytes", len(z))
	}
}
''')
bug('p30-stored-against-fixed','P30',('writer.go',"""	if storedLength < dynamicCounter.length() {""","""	if storedLength < staticCounter.length() {"""),
 'a block of mostly bytes above 143 with a skewed distribution, without matches',
 'it is stored although codes of its own would make it much smaller',
'''
func TestDemo(t *testing.T) {
	data := noise(3000, 7)
	for i := range data {
		data[i] = 0xf0 | data[i]&3
	}
	z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanOnlyStrategy))
	if len(z) > 1200 {
		t.Fatalf("%d bytes", len(z))
	}
}
''')
