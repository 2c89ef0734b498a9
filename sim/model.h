// Small independent models the history is checked against: a recursive descent reader of infix text
// and modular arithmetic for linear systems.
#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <vector>
#include "tsym/tsym.h"

namespace sim {
// Value of a text, nothing if it has to be refused. Values are combined by the public operators.
std::optional<tsym::Var> modelParse(const std::string& text);
// What Var(text) and Var(text, positive) give.
tsym::Var modelFromText(const std::string& text, bool positive);

// Image of an expression under a homomorphism into the field of 2^61-1 elements: symbols and constants
// go to numbers chosen by the salt. Nothing if there is none (functions, roots, division by zero).
std::optional<uint64_t> modEval(const tsym::Var& v, uint64_t salt);

struct LinearVerdict {
    enum Kind { Unknown, Regular, Singular } kind = Unknown;
    bool solutionChecked = false, solutionRight = true;
};
// a: row-major active part of the matrix; rhs: columns; result: what the library gave (may be empty).
LinearVerdict modelSolve(const std::vector<tsym::Var>& a, const std::vector<tsym::Var>& b, const std::vector<tsym::Var>* x, size_t n,
  size_t columns);
// Determinant of the active part, right or wrong as far as it can be told.
LinearVerdict modelDeterminant(const std::vector<tsym::Var>& a, const tsym::Var* det, size_t n);
}
