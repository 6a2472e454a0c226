#define ERROR_ALREADY_EXISTS 183
