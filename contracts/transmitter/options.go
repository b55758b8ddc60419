package transmitter

import "alda.io/client/model"

// Every option sets what it is about, and nothing else.

// cvUnset: a context no option has touched yet.
func cvUnset() *TransmissionContext { return &TransmissionContext{toIndex: -1} }

// cvOtherwise: the contexts are the same but for what the masks say.
func cvOtherwise(c *TransmissionContext, from, to, fromIndex, toIndex, sync, oneOff, loadOnly bool) bool {
	return (from || c.from == "") && (to || c.to == "") && (fromIndex || c.fromIndex == 0) && (toIndex || c.toIndex == -1) &&
		(sync || c.syncOffsets == nil) && (oneOff || !c.oneOff) && (loadOnly || !c.loadOnly)
}

//cv:contract TransmitFrom
//cv:props P17
//cv:noframe
func cvTransmitFrom(from string) {
	ctx := cvUnset()
	TransmitFrom(from)(ctx)
	cvEnsures("where to begin, and nothing else", ctx.from == from && cvOtherwise(ctx, true, false, false, false, false, false, false))
}

//cv:contract TransmitTo
//cv:props P17
//cv:noframe
func cvTransmitTo(to string) {
	ctx := cvUnset()
	TransmitTo(to)(ctx)
	cvEnsures("where to end, and nothing else", ctx.to == to && cvOtherwise(ctx, false, true, false, false, false, false, false))
}

//cv:contract TransmitFromIndex
//cv:props P17
//cv:noframe
func cvTransmitFromIndex(i int) {
	ctx := cvUnset()
	TransmitFromIndex(i)(ctx)
	cvEnsures("the first event, and nothing else", ctx.fromIndex == i && cvOtherwise(ctx, false, false, true, false, false, false, false))
}

//cv:contract TransmitToIndex
//cv:props P17
//cv:noframe
func cvTransmitToIndex(i int) {
	ctx := cvUnset()
	TransmitToIndex(i)(ctx)
	cvEnsures("the event to stop at, and nothing else", ctx.toIndex == i && cvOtherwise(ctx, false, false, false, true, false, false, false))
}

//cv:contract SyncOffsets
//cv:props P17
//cv:noframe
func cvSyncOffsets(syncOffsets map[*model.Part]float64) {
	ctx := cvUnset()
	SyncOffsets(syncOffsets)(ctx)
	cvEnsures("the places of the parts, and nothing else", cvSameMap(ctx.syncOffsets, syncOffsets) && cvOtherwise(ctx, false, false, false, false, true, false, false))
}

//cv:contract OneOff
//cv:props P17
//cv:noframe
func cvOneOff() {
	ctx := cvUnset()
	OneOff()(ctx)
	cvEnsures("a shutdown afterwards, and nothing else", ctx.oneOff && cvOtherwise(ctx, false, false, false, false, false, true, false))
}

//cv:contract LoadOnly
//cv:props P17
//cv:noframe
func cvLoadOnly() {
	ctx := cvUnset()
	LoadOnly()(ctx)
	cvEnsures("no play, and nothing else", ctx.loadOnly && cvOtherwise(ctx, false, false, false, false, false, false, true))
}
