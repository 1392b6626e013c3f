#pragma once
struct PyObject;
struct PyModuleDef_Base {};
struct PyModuleDef { PyModuleDef_Base b; const char *n; const char *d; long s; void *m; };
#define PyModuleDef_HEAD_INIT {}
extern "C" PyObject *PyModule_Create(struct PyModuleDef *);
