import './cryptomon.mjs'
