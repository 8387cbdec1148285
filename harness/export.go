package verifharness

// AnyDoc is a schema as decoded from JSON.
func AnyDoc() map[string]interface{} { return anyDoc() }

// CodeFor is the code the generator makes for schemas in a document.
func CodeFor(names []string, root map[string]interface{}, docs ...map[string]interface{}) (string, error) {
	return codeFor(names, root, docs...)
}
