# per-property additions to the level note, and reasons for what is not claimed
NOTE.update({
})
