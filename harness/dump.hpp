// Canonical dumps of the structures built by the code under test.
#pragma once
#include "lang.hpp"
#include <cstdarg>
#include <cstddef>
#define namespace namespace_
extern "C" {
#include "ast.h"
#include "tree.h"
#include "printer.h"
int parse(const char* text, struct ast_node** node);
int event_parse(const char* text, struct betree_event** event);
}
#undef namespace
namespace dmp {
using lang::fnum;
using lang::q;
inline std::string z(const char* s) { return s ? q(s) : "NULL"; }
// attribute names are case-insensitive
inline std::string nm(const char* s) { return s ? q(lang::lower(s)) : "NULL"; }
inline std::string ilist(const betree_integer_list* l) { std::string r = "(I"; for(size_t i = 0; i < l->count; i++) r += " " + std::to_string(l->integers[i]); return r + ")"; }
inline std::string slist(const betree_string_list* l) { std::string r = "(S"; for(size_t i = 0; i < l->count; i++) r += " " + z(l->strings[i].string); return r + ")"; }
inline const char* ftype(int t)
{
    switch(t) {
        case FREQUENCY_TYPE_ADVERTISER: return "advertiser";
        case FREQUENCY_TYPE_ADVERTISERIP: return "advertiser:ip";
        case FREQUENCY_TYPE_CAMPAIGN: return "campaign";
        case FREQUENCY_TYPE_CAMPAIGNIP: return "campaign:ip";
        case FREQUENCY_TYPE_CAMPAIGN_GROUP: return "campaign_group";
        case FREQUENCY_TYPE_CAMPAIGN_GROUPIP: return "campaign_group:ip";
        case FREQUENCY_TYPE_FLIGHT: return "flight";
        case FREQUENCY_TYPE_FLIGHTIP: return "flight:ip";
        case FREQUENCY_TYPE_PRODUCT: return "product";
        case FREQUENCY_TYPE_PRODUCTIP: return "product:ip";
        default: return "?";
    }
}
inline std::string node(const ast_node* n)
{
    if(!n) return "NULL";
    switch(n->type) {
        case AST_TYPE_COMPARE_EXPR: {
            auto& e = n->compare_expr;
            const char* op = e.op == AST_COMPARE_LT ? "<" : e.op == AST_COMPARE_LE ? "<=" : e.op == AST_COMPARE_GT ? ">" : ">=";
            return std::string("(") + op + " " + nm(e.attr_var.attr) + " " + (e.value.value_type == AST_COMPARE_VALUE_FLOAT ? "f" + fnum(e.value.float_value) : "i" + std::to_string(e.value.integer_value)) + ")";
        }
        case AST_TYPE_EQUALITY_EXPR: {
            auto& e = n->equality_expr;
            std::string v;
            switch(e.value.value_type) {
                case AST_EQUALITY_VALUE_INTEGER: v = "i" + std::to_string(e.value.integer_value); break;
                case AST_EQUALITY_VALUE_FLOAT: v = "f" + fnum(e.value.float_value); break;
                case AST_EQUALITY_VALUE_STRING: v = "s" + z(e.value.string_value.string); break;
                default: v = "e" + std::to_string(e.value.integer_enum_value.integer);
            }
            return std::string("(") + (e.op == AST_EQUALITY_EQ ? "=" : "<>") + " " + nm(e.attr_var.attr) + " " + v + ")";
        }
        case AST_TYPE_BOOL_EXPR: {
            auto& e = n->bool_expr;
            switch(e.op) {
                case AST_BOOL_OR: return lang::bin(false, node(e.binary.lhs), node(e.binary.rhs));
                case AST_BOOL_AND: return lang::bin(true, node(e.binary.lhs), node(e.binary.rhs));
                case AST_BOOL_NOT: return "(not " + node(e.unary.expr) + ")";
                case AST_BOOL_VARIABLE: return "(var " + nm(e.variable.attr) + ")";
                default: return std::string("(lit ") + (e.literal ? "1)" : "0)");
            }
        }
        case AST_TYPE_SET_EXPR: {
            auto& e = n->set_expr;
            std::string l, r;
            switch(e.left_value.value_type) {
                case AST_SET_LEFT_VALUE_INTEGER: l = "i" + std::to_string(e.left_value.integer_value); break;
                case AST_SET_LEFT_VALUE_STRING: l = "s" + z(e.left_value.string_value.string); break;
                default: l = "var " + nm(e.left_value.variable_value.attr);
            }
            switch(e.right_value.value_type) {
                case AST_SET_RIGHT_VALUE_INTEGER_LIST: r = ilist(e.right_value.integer_list_value); break;
                case AST_SET_RIGHT_VALUE_STRING_LIST: r = slist(e.right_value.string_list_value); break;
                default: r = "var " + nm(e.right_value.variable_value.attr);
            }
            return std::string(e.op == AST_SET_NOT_IN ? "(notin " : "(in ") + l + " " + r + ")";
        }
        case AST_TYPE_LIST_EXPR: {
            auto& e = n->list_expr;
            const char* op = e.op == AST_LIST_ONE_OF ? "one of" : e.op == AST_LIST_NONE_OF ? "none of" : "all of";
            return std::string("(") + op + " " + nm(e.attr_var.attr) + " " + (e.value.value_type == AST_LIST_VALUE_INTEGER_LIST ? ilist(e.value.integer_list_value) : slist(e.value.string_list_value)) + ")";
        }
        case AST_TYPE_SPECIAL_EXPR: {
            auto& s = n->special_expr;
            switch(s.type) {
                case AST_SPECIAL_FREQUENCY: return std::string("(freq ") + q(ftype(s.frequency.type)) + " " + z(s.frequency.ns.string) + " " + std::to_string(s.frequency.value) + " " + std::to_string((int64_t)s.frequency.length) + ")";
                case AST_SPECIAL_SEGMENT: return std::string(s.segment.op == AST_SPECIAL_SEGMENTWITHIN ? "(segment_within " : "(segment_before ") + nm(s.segment.attr_var.attr) + " " + std::to_string((int64_t)s.segment.segment_id) + " " + std::to_string(s.segment.seconds) + ")";
                case AST_SPECIAL_GEO: return "(geo " + fnum(s.geo.latitude) + " " + fnum(s.geo.longitude) + " " + fnum(s.geo.radius) + ")";
                default: {
                    const char* op = s.string.op == AST_SPECIAL_CONTAINS ? "contains" : s.string.op == AST_SPECIAL_STARTSWITH ? "starts_with" : "ends_with";
                    return std::string("(") + op + " " + nm(s.string.attr_var.attr) + " " + z(s.string.pattern) + ")";
                }
            }
        }
        default: {
            auto& e = n->is_null_expr;
            const char* op = e.type == AST_IS_NULL ? "is null" : e.type == AST_IS_NOT_NULL ? "is not null" : "is empty";
            return std::string("(") + op + " " + nm(e.attr_var.attr) + ")";
        }
    }
}
inline std::string value(const struct value& v)
{
    switch(v.value_type) {
        case BETREE_BOOLEAN: return v.boolean_value ? "b1" : "b0";
        case BETREE_INTEGER: return "i" + std::to_string(v.integer_value);
        case BETREE_FLOAT: return "f" + fnum(v.float_value);
        case BETREE_STRING: return "s" + z(v.string_value.string);
        case BETREE_INTEGER_LIST: return ilist(v.integer_list_value);
        case BETREE_STRING_LIST: return slist(v.string_list_value);
        case BETREE_SEGMENTS: {
            std::string r = "(G";
            for(size_t i = 0; i < v.segments_value->size; i++) r += " [" + std::to_string(v.segments_value->content[i]->id) + " " + std::to_string(v.segments_value->content[i]->timestamp) + "]";
            return r + ")";
        }
        case BETREE_FREQUENCY_CAPS: {
            std::string r = "(C";
            for(size_t i = 0; i < v.frequency_caps_value->size; i++) {
                auto c = v.frequency_caps_value->content[i];
                r += std::string(" [") + ftype(c->type) + " " + std::to_string(c->id) + " " + z(c->namespace_.string) + " " + std::to_string(c->value) + " " + (c->timestamp_defined ? std::to_string(c->timestamp) : "undefined") + "]";
            }
            return r + ")";
        }
        default: return "e" + std::to_string(v.integer_enum_value.integer);
    }
}
inline std::string event(const betree_event* e)
{
    std::string r = "{";
    for(size_t i = 0; i < e->variable_count; i++)
        r += " " + (e->variables[i] ? nm(e->variables[i]->attr_var.attr) + "=" + value(e->variables[i]->value) : std::string("NULL"));
    return r + "}";
}
} // namespace dmp
