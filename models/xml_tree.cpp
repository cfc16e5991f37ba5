// Tree, XPath, RelaxNG: not modelled; no harness reaches them.
#include <stdlib.h>
#include <stdio.h>
extern "C" {
void xmlAddChild() { fprintf(stderr, "unmodelled xmlAddChild\n"); abort(); }
void xmlDocGetRootElement() { fprintf(stderr, "unmodelled xmlDocGetRootElement\n"); abort(); }
void xmlDocSetRootElement() { fprintf(stderr, "unmodelled xmlDocSetRootElement\n"); abort(); }
void xmlFileRead() { fprintf(stderr, "unmodelled xmlFileRead\n"); abort(); }
void xmlFreeDoc() { fprintf(stderr, "unmodelled xmlFreeDoc\n"); abort(); }
void xmlFreeNs() { fprintf(stderr, "unmodelled xmlFreeNs\n"); abort(); }
void xmlGetNsProp() { fprintf(stderr, "unmodelled xmlGetNsProp\n"); abort(); }
void xmlNewNode() { fprintf(stderr, "unmodelled xmlNewNode\n"); abort(); }
void xmlNewNs() { fprintf(stderr, "unmodelled xmlNewNs\n"); abort(); }
void xmlNewNsProp() { fprintf(stderr, "unmodelled xmlNewNsProp\n"); abort(); }
void xmlNodeDumpOutput() { fprintf(stderr, "unmodelled xmlNodeDumpOutput\n"); abort(); }
void xmlNodeListGetRawString() { fprintf(stderr, "unmodelled xmlNodeListGetRawString\n"); abort(); }
void xmlReadFd() { fprintf(stderr, "unmodelled xmlReadFd\n"); abort(); }
void xmlReadFile() { fprintf(stderr, "unmodelled xmlReadFile\n"); abort(); }
void xmlReadIO() { fprintf(stderr, "unmodelled xmlReadIO\n"); abort(); }
void xmlReadMemory() { fprintf(stderr, "unmodelled xmlReadMemory\n"); abort(); }
void xmlRelaxNGFree() { fprintf(stderr, "unmodelled xmlRelaxNGFree\n"); abort(); }
void xmlRelaxNGFreeParserCtxt() { fprintf(stderr, "unmodelled xmlRelaxNGFreeParserCtxt\n"); abort(); }
void xmlRelaxNGFreeValidCtxt() { fprintf(stderr, "unmodelled xmlRelaxNGFreeValidCtxt\n"); abort(); }
void xmlRelaxNGNewDocParserCtxt() { fprintf(stderr, "unmodelled xmlRelaxNGNewDocParserCtxt\n"); abort(); }
void xmlRelaxNGNewValidCtxt() { fprintf(stderr, "unmodelled xmlRelaxNGNewValidCtxt\n"); abort(); }
void xmlRelaxNGParse() { fprintf(stderr, "unmodelled xmlRelaxNGParse\n"); abort(); }
void xmlRelaxNGValidateDoc() { fprintf(stderr, "unmodelled xmlRelaxNGValidateDoc\n"); abort(); }
void xmlReplaceNode() { fprintf(stderr, "unmodelled xmlReplaceNode\n"); abort(); }
void xmlXPathCompile() { fprintf(stderr, "unmodelled xmlXPathCompile\n"); abort(); }
void xmlXPathCompiledEval() { fprintf(stderr, "unmodelled xmlXPathCompiledEval\n"); abort(); }
void xmlXPathFreeCompExpr() { fprintf(stderr, "unmodelled xmlXPathFreeCompExpr\n"); abort(); }
void xmlXPathFreeContext() { fprintf(stderr, "unmodelled xmlXPathFreeContext\n"); abort(); }
void xmlXPathFreeNodeSet() { fprintf(stderr, "unmodelled xmlXPathFreeNodeSet\n"); abort(); }
void xmlXPathFreeObject() { fprintf(stderr, "unmodelled xmlXPathFreeObject\n"); abort(); }
void xmlXPathNewContext() { fprintf(stderr, "unmodelled xmlXPathNewContext\n"); abort(); }
void xmlXPathNodeSetCreate() { fprintf(stderr, "unmodelled xmlXPathNodeSetCreate\n"); abort(); }
void xmlXPathNodeSetMerge() { fprintf(stderr, "unmodelled xmlXPathNodeSetMerge\n"); abort(); }
void xmlXPathNodeSetRemove() { fprintf(stderr, "unmodelled xmlXPathNodeSetRemove\n"); abort(); }
void xmlXPathRegisterNs() { fprintf(stderr, "unmodelled xmlXPathRegisterNs\n"); abort(); }
}
