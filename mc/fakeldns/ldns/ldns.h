/* Stand-in for the parts of ldns that libmy/zonefile.c uses (ldns is not installed).  Semantics follow ldns 1.8:
 * ldns_rr_new_frm_fp_l reads one line; at the end of the input (or on a read error) it sees an empty line.
 * Line syntax of the stand-in: "S<owner> <serial>", "R<owner> <number>", "O<origin>", "T<ttl>", empty or ";...", anything else is an error. */
#ifndef FAKE_LDNS_H
#define FAKE_LDNS_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct ldns_struct_rdf ldns_rdf;
typedef struct ldns_struct_rr ldns_rr;
typedef enum { LDNS_RR_TYPE_A = 1, LDNS_RR_TYPE_NS = 2, LDNS_RR_TYPE_SOA = 6, LDNS_RR_TYPE_TXT = 16 } ldns_rr_type;
typedef enum { LDNS_RR_CLASS_IN = 1 } ldns_rr_class;
typedef enum { LDNS_STATUS_OK, LDNS_STATUS_EMPTY_LABEL, LDNS_STATUS_MEM_ERR = 8, LDNS_STATUS_INTERNAL_ERR, LDNS_STATUS_ERR = 11, LDNS_STATUS_FILE_ERR = 26, LDNS_STATUS_SYNTAX_ERR = 40,
	LDNS_STATUS_SYNTAX_TTL = 49, LDNS_STATUS_SYNTAX_ORIGIN, LDNS_STATUS_SYNTAX_INCLUDE, LDNS_STATUS_SYNTAX_EMPTY } ldns_status;
ldns_status ldns_rr_new_frm_fp_l(ldns_rr **rr, FILE *fp, uint32_t *default_ttl, ldns_rdf **origin, ldns_rdf **prev, int *line_nr);
ldns_status ldns_rr_new_frm_fp(ldns_rr **rr, FILE *fp, uint32_t *default_ttl, ldns_rdf **origin, ldns_rdf **prev);
ldns_rr_type ldns_rr_get_type(const ldns_rr *);
ldns_rdf *ldns_rr_owner(const ldns_rr *);
ldns_rdf *ldns_rr_rdf(const ldns_rr *, size_t);
uint32_t ldns_rr_ttl(const ldns_rr *);
ldns_rr_class ldns_rr_get_class(const ldns_rr *);
size_t ldns_rr_rd_count(const ldns_rr *);
int ldns_rdf_compare(const ldns_rdf *, const ldns_rdf *);
int ldns_dname_compare(const ldns_rdf *, const ldns_rdf *);
const char *ldns_get_errorstr_by_id(ldns_status);
ldns_rr *ldns_rr_clone(const ldns_rr *);
void ldns_rr_free(ldns_rr *);
ldns_rdf *ldns_rdf_clone(const ldns_rdf *);
void ldns_rdf_deep_free(ldns_rdf *);
void ldns_rdf_free(ldns_rdf *);
uint32_t ldns_rdf2native_int32(const ldns_rdf *);
uint8_t *ldns_rdf_data(const ldns_rdf *);
size_t ldns_rdf_size(const ldns_rdf *);
#ifdef __cplusplus
}
#endif
#endif
